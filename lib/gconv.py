"""Random foreign and legacy configurations, as trees."""
import re
from ytree import S
import ytree
import spice

IMG = ['golang', 'golang:1.11', 'alpine', 'plugins/docker', 'gcr.io/a/b:v2', 'node:8-alpine', 'redis:3.0']
CMD = ['go test', 'go build ./...', 'make', 'echo "a: b"', "echo 'x' # y", 'npm run x && true', 'a | b', '- x', 'x: y', '[ -f a ]', '{ a; }', '*', '&x', '!t', 'true', '123', '@a', '%b', '> f', 'line1\nline2\n', 'é ✓', '$HOME/x', '$$X', '  lead', '']
NAMES = ['build', 'test', 'deploy', 'clone', 'docker', 'redis', 'a', 'b-1', 'c_2', 'A', '1', 'lint.go']
VOLS = ['/tmp', '/var/run/docker.sock', '/a/b', '/cache', '/a', 'data', './x']
EVENTS = ['push', 'tag', 'pull_request', 'deployment', 'deploy', 'promote', 'cron']
MV = ['1.11', '1.10', '2.6', 'alpine', 'go', 'x86_64', 'linux', '10', 'true', 'a-b', 'v1', '007', '1e3']
MWORD = ['alpine', 'go', 'linux', 'a-b', 'v1', 'x86']
MK = ['GO_VERSION', 'DB', 'OS', 'A', 'B', 'C1', 'arch', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K']


class Conv:
    def __init__(self, rnd, matrix=None, rare=.12):
        self.r, self.m, self.rare = rnd, matrix or [], rare
        self.MV, self.CMD, self.NAMES, self.EVENTS = MV, CMD, NAMES, EVENTS
        if self.p(.25):
            safe = lambda w: spice.SAFE.match(w) and w not in ('clone', 'y', 'Y', 'n', 'N', '<<')
            if self.p(.4):
                self.MV = MV + self.pick([[''], [''], [spice.word(rnd, True)]])
            if self.p(.4):
                self.CMD = spice.pool(rnd, CMD, lambda w: '${' not in w)
            if self.p(.4):
                self.NAMES = spice.pool(rnd, NAMES, safe)
            if self.p(.4):
                self.EVENTS = spice.pool(rnd, EVENTS, safe)

    def p(self, x):
        return self.r.random() < x

    def pick(self, q, k=None):
        return self.r.choice(q) if k is None else [self.r.choice(q) for _ in range(k)]

    def ref(self):
        return '${%s}' % self.pick(self.m)

    def mix(self, s):
        """a string with, sometimes, a reference to a matrix variable in the middle"""
        if self.m and self.p(.45) and s and '\n' not in s:
            return self.pick(['x %s y', 'v-%s', 'a%sb', '%s-z'] if s[0] not in '-[{*&!@%>' else ['x %s y']) % self.ref() if self.p(.5) else 'q' + s.replace(':', '').replace('#', '') + '-' + self.ref()
        if self.m and self.p(.04):
            return s + 'x' + self.pick(['${NOPE}', '$OS', '${', '$$', '${A'])
        return s

    def cmd(self):
        return self.mix(self.pick(self.CMD))

    def img(self):
        return ('golang:v' if '' in self.MV else 'golang:') + self.ref() if self.m and self.p(.4) else self.pick(IMG)

    def words(self, q, hi=3):
        return self.pick([None]) if self.p(.03) else self.pick(q, self.r.randint(0, hi))

    def one_or_list(self, f, hi=3, nul=.03):
        x = self.r.random()
        if x < nul:
            return None
        return f() if x < .3 else [f() for _ in range(self.r.randint(0, hi))]

    # ---------------------------------------------------------- legacy
    def cond(self, q):
        f = lambda: self.pick(q)
        if self.p(.3):
            d = {}
            if self.p(.8):
                d['include'] = self.one_or_list(f)
            if self.p(.5):
                d['exclude'] = self.one_or_list(f)
            return d
        return self.one_or_list(f)

    def when(self):
        d = {}
        for k, q in (('ref', ['refs/heads/*', 'refs/tags/v1', 'refs/**']), ('repo', ['a/b', 'octocat/*']), ('instance', ['drone.io', '*.com']),
                     ('environment', ['production', 'staging']), ('event', self.EVENTS), ('branch', ['master', 'feature/*', 'dev']), ('status', ['success', 'failure', 'changed'])):
            if self.p(.3):
                d[k] = self.cond(q)
        if self.m and self.p(.5):
            d['matrix'] = {self.pick(self.m + ['NOPE'] * (self.p(.1))): self.pick(self.MV) for _ in range(self.r.randint(0, 2))}
        elif self.p(.05):
            d['matrix'] = {'A': 'b'}
        return d

    def envname(self):
        return self.pick(['FOO', 'bar', 'GOOS', 'TOKEN', 'A_B', 'X', 'PLUGIN_X', 'token'])

    def val(self):
        s = self.pick(['a', 'x y', 'true', '1.10', '10', 'no', 'a=b', '', 'k: v', '# c', "it's", '"q"', 'line\nbreak', '007'])
        return self.mix(s) if self.p(.4) else s

    def env(self):
        if self.p(.5):
            return {self.envname(): self.val() for _ in range(self.r.randint(0, 3))}
        return [self.pick(['%s=%s' % (self.envname(), self.val()), 'NOVALUE', '']) if self.p(.2) else '%s=%s' % (self.envname(), self.val()) for _ in range(self.r.randint(0, 3))]

    def secrets(self):
        if self.p(.5):
            return [self.pick(['token', 'Docker_Password', 'ssh-key', 'foo']) for _ in range(self.r.randint(0, 3))]
        return [None if n and self.p(self.rare) else {'source': self.pick(['src_a', 'token', 'b-c']), 'target': self.pick(['token', 'Foo', 'plugin_x'])} for n in range(self.r.randint(1, 3))]

    def vol(self):
        a, b = self.pick(VOLS), self.pick(['/data', '/tmp', '/x/y', '/var/run/docker.sock'])
        return None if self.p(self.rare / 3) else self.pick(['%s:%s', '%s:%s', '%s:%s:ro', '%s:%s:rw']) % (a, b)

    def setting(self, d=0):
        x = self.r.random()
        if d == 0 and x < .06:
            return {'from_secret': self.pick(['token', 'x'])}
        if x < .5 or d > 2:
            s = self.pick(['a', 'octocat/hello', 'x y', '1.10', 'true', '', 'k: v', '# c', '@x', 'multi\nline', "it's", 'null', '~'] if d else ['a', 'octocat/hello', 'x y', '1.10', 'true', '', 'k: v', '# c', '@x', 'multi\nline', "it's"])
            return 'r-' + self.ref() if self.m and self.p(.25) else s
        if x < .58:
            return self.pick([True, False])
        if x < .66:
            return self.pick([0, 1, 42, 8080, -5])
        if x < .85:
            return [self.setting(d + 1) for _ in range(self.r.randint(0, 3))]
        return {self.pick(['k', 'sub-key', 'A', 'b_c']): self.setting(d + 1) for _ in range(self.r.randint(0, 2))}

    def lcontainer(self, plugin=None):
        d = {}
        fs = {'image': self.img, 'command': lambda: self.one_or_list(self.cmd), 'commands': lambda: self.one_or_list(self.cmd), 'entrypoint': lambda: self.one_or_list(self.cmd),
              'dns': lambda: self.one_or_list(lambda: self.pick(['8.8.8.8', '1.1.1.1'])), 'dns_search': lambda: self.one_or_list(lambda: self.pick(['a.com', 'b.org'])),
              'extra_hosts': lambda: [self.pick(['a:1.1.1.1', 'b.c:127.0.0.1']) for _ in range(self.r.randint(0, 2))], 'environment': self.env, 'secrets': self.secrets,
              'detach': lambda: self.pick([True, False]), 'privileged': lambda: self.pick([True, False]), 'pull': lambda: self.pick([True, False]),
              'volumes': lambda: [self.vol() for _ in range(self.r.randint(0, 3))], 'when': self.when,
              'devices': lambda: ['/dev/a'], 'tmpfs': lambda: ['/t'], 'shell': lambda: 'bash', 'allow_failure': lambda: self.pick([True, False])}
        w = {'image': .9, 'commands': .55, 'command': .2, 'when': .4, 'devices': .03, 'tmpfs': .03, 'shell': .03, 'allow_failure': .03, 'dns': .12, 'dns_search': .12, 'extra_hosts': .12, 'privileged': .15, 'detach': .15, 'entrypoint': .2}
        ks = list(fs)
        self.r.shuffle(ks)
        for k in ks:
            if self.p(w.get(k, .3)):
                d[k] = fs[k]()
        for k in ('repo', 'tags', 'dry_run', 'webhook', 'ports', 'settings'):
            if self.p(.2):
                d[k] = self.setting()
        return d

    def lcontainers(self, lo, hi):
        d = {}
        names = self.pick(self.NAMES, self.r.randint(lo, hi)) if self.p(.97) else ['%s%d' % (self.pick(['s', 'build_', 'x']), i) for i in range(self.r.randint(5, 24))]
        if self.p(.25):
            names = ['%s_%d' % (x, self.r.randint(0, 4)) if self.p(.5) else x for x in names]
        for n in names:
            k = int(n) if n == '1' else n
            d[k] = None if self.p(self.rare / 3) else self.lcontainer()
        return d

    def matrixdoc(self, big=False):
        r = self.r
        if self.p(.35):
            ks = self.pick(MK, r.randint(1, 3))
            inc = [{k: self.pick(self.MV) for k in ks if self.p(.9)} for _ in range(r.randint(0 if self.p(.1) else 1, 4) if self.p(.93) else r.choice([26, 27, 30, 11, spice.length(r)]))]
            m = {'include': inc}
            if self.p(.2):
                m[self.pick(MK)] = self.pick(self.MV, 2)
            return m
        if big:
            n = r.choice([1, 2, 3, 4, 5, 8, 11, 12, 13, 15])
            ks = r.sample(MK, n)
            return {k: self.pick(self.MV, r.choice([0, 1, 1, 2, 2, 3, 4, 30 if n < 3 else 2])) for k in ks}
        ks = r.sample(MK, r.randint(0 if self.p(.1) else 1, 3))
        return {k: (None if self.p(.03) else r.sample(self.MV, r.randint(0 if self.p(.1) else 1, 3))) for k in ks}

    def legacy(self, matrix=None):
        d = {}
        m = None
        if matrix if matrix is not None else self.p(.35):
            m = self.matrixdoc()
            if self.p(.03):
                m = None
            ks = set(m or {}) - {'include'}
            for e in (m or {}).get('include', []):
                ks |= set(e)
            self.m = sorted(ks)
            d['matrix'] = m
        if self.p(.3):
            d['workspace'] = {k: v for k, v in (('base', self.pick(['/go', '/drone', ''])), ('path', self.pick(['src/github.com/a/b', '.', 'x', '']))) if self.p(.7)}
        if self.p(.25):
            d['clone'] = self.lcontainers(0, 2)
        d['pipeline'] = self.lcontainers(0 if self.p(.1) else 1, 4)
        if d.get('clone') and d['pipeline'] and self.p(.3):
            # a name that is taken, whose replacements are taken too
            ns = list(d['pipeline'])
            at = self.r.randrange(len(ns))
            n, i = str(ns[at]), at + len(d['clone']) + 2
            for x in ((n, '%s_%d' % (n, i)) if self.p(.7) else (n, '%s_%d' % (n, i - 1))):
                d['clone'][x] = self.lcontainer()
        if self.p(.4):
            d['services'] = self.lcontainers(0, 3)
        if self.p(.5):
            d['branches'] = self.cond(['master', 'release/*', 'dev', 'feature/**'])
        if self.p(.4):
            d['secrets'] = {self.pick(['tok', 'user', 'Z', 'a-b']): self.pick([{'path': 'p/q'}, {'vault': 'v/w'}, {'path': 'a', 'vault': 'b'}, {'driver': 'vault', 'driver_opts': {'path': 'a/b', 'key': 'k'}},
                            {'driver': 'vault', 'driver_opts': {'path': 'x'}}, {'driver': 'vault'}, {'driver': 'other', 'path': 'z'}, {}, None, {'driver': 'vault', 'path': 'p', 'driver_opts': None}]) for _ in range(self.r.randint(0, 3))}
        if self.p(.1):
            d['skip_clone'] = True
        ks = list(d)
        self.r.shuffle(ks)
        return {k: d[k] for k in ks}

    # ---------------------------------------------------------- gitlab
    def gimage(self, service=False):
        if self.p(.5):
            return self.pick(IMG)
        d = {'name': self.pick(IMG)}
        if self.p(.4):
            d['entrypoint'] = self.one_or_list(self.cmd)
        if self.p(.4):
            d['command'] = self.one_or_list(self.cmd)
        if self.p(.4) and service:
            d['alias'] = self.pick(['db', 'cache', 'x-1'])
        return d

    def gjob(self, stages):
        d = {}
        for k in ('script', 'before_script', 'after_script'):
            if self.p(.85 if k == 'script' else .35):
                d[k] = self.one_or_list(self.cmd)
        if self.p(.5):
            d['image'] = self.gimage() if self.p(.9) else self.pick(['', {'entrypoint': ['x']}, {}])
        if stages:
            if not ('test' in stages and self.p(.25)):
                d['stage'] = self.pick(stages)
        elif self.p(.3):
            d['stage'] = self.pick(['test', 'build', 'zz'])
        if self.p(.3):
            d['allow_failure'] = self.pick([True, False])
        if self.p(.15):
            d['only'] = ['master']
        if self.p(.1):
            d['variables'] = {'A': 'b'}
        if self.p(.1):
            d['when'] = 'manual'
        if self.p(.1):
            d['tags'] = ['x']
        return d

    def gitlab(self):
        d = {}
        stages = self.r.sample(['build', 'test', 'deploy', 'x-y', 'zz', '1'], self.r.randint(1, 4)) if self.p(.6) else []
        if stages or self.p(.1):
            d['stages'] = stages
        for k in ('before_script', 'after_script'):
            if self.p(.4):
                d[k] = self.one_or_list(self.cmd)
        if self.p(.6):
            d['image'] = self.gimage()
        if self.p(.4):
            d['services'] = [None if self.p(self.rare / 2) else self.gimage(True) for _ in range(self.r.randint(0, 3))]
        if self.p(.15):
            d['variables'] = {'A': 'b'}
        jobs = ['job1', 'unit', 'a', 'b', 'C', 'rspec', 'deploy prod', 'z-9', 'build']
        for n in self.r.sample(jobs, self.r.randint(0 if self.p(.1) else 1, 6)) if self.p(.97) else self.r.sample(jobs + ['job%d' % i for i in range(2, 16)], 20):
            d[n] = None if self.p(self.rare / 3) else self.gjob([s for s in stages])
        if self.p(.15):
            d[self.pick(['.tpl', '.a', '.', '..b'])] = self.gjob([s for s in stages])
        if self.p(.15):
            d['cache'] = self.pick([{'paths': ['vendor']}, {'key': 'x', 'paths': ['a', 'b'], 'policy': 'pull'}, [{'key': 'a'}], {}, None])
        ks = list(d)
        self.r.shuffle(ks)
        return {k: d[k] for k in ks}

    # ---------------------------------------------------------- bitbucket
    PATS = ['master', 'feature/*', '*', 'v*', 'v1.?', 'v[0-9]', 'release-*', '*/*', 'a', 'dev', 'v1.0', '\\*', 'x*y', 'hotfix/*/x']
    REFS = ['refs/heads/master', 'refs/heads/feature/a', 'refs/heads/feature/a/b', 'refs/heads/a', 'refs/heads/dev', 'refs/heads/release-1', 'refs/tags/v1', 'refs/tags/v1.0', 'refs/tags/v1.2',
            'refs/tags/master', 'refs/tags/a', 'refs/tags/feature/a', 'refs/heads/v1', 'refs/pull/1/head', '', 'master', 'v1.0', 'refs/heads/xay', 'refs/heads/hotfix/1/x', 'refs/heads/*', 'refs/tags/']

    def bstep(self):
        d = {}
        if self.p(.5):
            d['name'] = self.pick(['Build', 'test it', 'a', 'b', ''])
        if self.p(.5):
            d['image'] = self.pick(IMG)
        if self.p(.9):
            d['script'] = [self.cmd() for _ in range(self.r.randint(0, 3))]
        if self.p(.15):
            d['artifacts'] = ['x']
        if self.p(.1):
            d['caches'] = ['node']
        return d

    def bstage(self):
        q = []
        for _ in range(self.r.randint(0 if self.p(.1) else 1, 3 if self.p(.98) else 16)):
            q.append({'step': None} if self.p(self.rare / 3) else {'parallel': [None if self.p(self.rare / 3) else {'step': self.bstep()} for _ in range(self.r.randint(0, 3))]} if self.p(.15) else {'step': self.bstep()})
        return q

    def bitbucket(self):
        d = {}
        if self.p(.6):
            d['image'] = self.pick(IMG)
        if self.p(.4):
            d['clone'] = {'depth': self.pick([0, 1, 50])}
        p = {}
        if self.p(.8):
            p['default'] = self.bstage()
        for k in ('tags', 'branches'):
            if self.p(.6):
                p[k] = {x: self.bstage() for x in self.r.sample(self.PATS, self.r.randint(0, 4))}
        if self.p(.1):
            p['custom'] = {'x': self.bstage()}
        if self.p(.1):
            p['pull-requests'] = {'**': self.bstage()}
        if p or self.p(.5):
            d['pipelines'] = p
        if self.p(.4):
            d['definitions'] = {}
            if self.p(.9):
                d['definitions']['services'] = {x: None if self.p(self.rare / 2) else {k: v for k, v in (('image', self.pick(IMG)), ('variables', {'PW': 'x', 'DB': '1'}), ('memory', 512)) if self.p(.7)}
                                                for x in self.r.sample(['redis', 'mysql', 'a', 'docker'], self.r.randint(0, 3))}
            if self.p(.3):
                d['definitions']['caches'] = {'x': '~/y'}
        ks = list(d)
        self.r.shuffle(ks)
        return {k: d[k] for k in ks}


URLS = [{'set': False, 'host': '', 'path': ''}, {'set': True, 'host': 'github.com', 'path': 'octocat/hello'}, {'set': True, 'host': '', 'path': ''}]


def url_text(rnd, u):
    if not u['set']:
        return ''
    if u['host'] == '':
        return rnd.choice(['/x/y', 'not a url', 'x/y', 'github.com:80/a', 'git@github.com:a/b', 'http://[::1', '%zz'])
    return rnd.choice(['https://%s/%s', 'http://%s:8080/%s', 'https://%s/%s/', 'ssh://git@%s/%s', 'https://u:p@%s/%s?x=1#f', '//%s/%s']) % (u['host'], u['path'])


ENVVARS = {'kubernetes': 'DRONE_CONVERT_YAML_LEGACY_TO_KUBERNETES', 'clone': 'DRONE_CONVERT_YAML_LEGACY_CLONE', 'pull': 'DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS'}


def lines_of(text):
    """what the specification needs of a text's lines: only those that begin with `pipeline:`, others by their head"""
    return [l if l.startswith('pipeline:') and len(l) < 40 else l[:12] if all(32 <= ord(c) < 127 for c in l[:12]) and not l[:12].startswith('pipeline:') else 'x' for l in text.split('\n')]


def case(rnd, fmt, doc, filename, text=None, url=None, envs=(), ref=''):
    u = url or URLS[0]
    t = text or ytree.emit(doc, rnd)
    return {'j': 'convert', 'op': 'convert', 'filename': filename, 'lines': lines_of(t), 'doc': ytree.tag(doc), 'urlset': u, 'url': url_text(rnd, u), 'envs': sorted(envs), 'ref': ref, 'text': t}


def legacy_text(doc, rnd):
    """`pipeline:` needs a line of its own; a list or mapping value may not be on it"""
    while True:
        t = ytree.emit(doc, rnd, pflow=rnd.choice([0, .15, .25]))
        if re.search(r'(?m)^pipeline:[ \t]*$', t):
            return t
        if not doc.get('pipeline'):
            return None


HURT = [{'a': 'b'}, [['x']], [{'a': 'b'}], ['x'], 'x', [], {}, {'include': {'a': 'b'}}, {'include': [['x']], 'exclude': ['y']}, {'exclude': {'a': 'b'}}]


def places(doc, pre=()):
    """every field and element of a document"""
    q = []
    if isinstance(doc, dict):
        for k, v in doc.items():
            q += [pre + (k,)] + places(v, pre + (k,))
    elif isinstance(doc, list):
        for k, v in enumerate(doc):
            q += [pre + (k,)] + places(v, pre + (k,))
    return q


def put(doc, path, v):
    if not path:
        return v
    if isinstance(doc, dict):
        return {k: put(x, path[1:], v) if k == path[0] else x for k, x in doc.items()}
    return [put(x, path[1:], v) if k == path[0] else x for k, x in enumerate(doc)]


def hurt(rnd, doc, keys=()):
    """the document with one field of another shape; or the field of a shape that no field has"""
    ps = places(doc)
    for k in keys:
        if rnd.random() < .5 and isinstance(doc, dict):
            doc = dict(doc)
            doc.setdefault(k, None)
            ps.append((k,))
    if not ps:
        return None
    # shallow fields are few and deep ones many
    d = rnd.choice(sorted({len(p) for p in ps}))
    p = rnd.choice([p for p in ps if len(p) == d])
    return put(doc, p, rnd.choice(HURT))


def hurt_cases(rnd, fmt):
    """a damaged document of a format, or a text that is none"""
    g = Conv(rnd)
    d = getattr(g, fmt)(False) if fmt == 'legacy' else getattr(g, fmt)()
    syntax = rnd.random() < .1
    for _ in range(1 if syntax else 20):
        h = d if syntax else hurt(rnd, d, {'legacy': ['branches', 'workspace', 'secrets'], 'gitlab': ['stages', 'services', 'image', 'before_script'], 'bitbucket': ['clone', 'image', 'definitions']}[fmt])
        if h is None:
            return None
        if fmt == 'legacy':
            t = ytree.emit(h, rnd, pflow=.1)
            if not re.search(r'(?m)^pipeline:[ \t]*$', t):
                continue
        else:
            t = ytree.emit(h, rnd)
        if syntax:
            t = t.rstrip('\n') + rnd.choice(['\n]\n', '\n"open\n', '\n}\n'])
        c = case(rnd, fmt, h, {'legacy': rnd.choice(['.drone.yml', '']), 'gitlab': '.gitlab-ci.yml', 'bitbucket': 'bitbucket-pipelines.yml'}[fmt], t, url=rnd.choice(URLS), ref=rnd.choice(Conv.REFS) if fmt == 'bitbucket' else '')
        c['hurt'] = 'syntax' if syntax else 'shape'
        return c
    return None
