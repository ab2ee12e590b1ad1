"""Realistic pipelines, options and transforms for the compiler, the linter
and the runner; built so that every feature interacts with every other."""
import re
import spice
from ytree import S, fl, flt
from gen import Gen

IMAGES = ['golang:1.11', 'golang', 'alpine', 'plugins/docker', 'plugins/docker:17', 'docker.io/plugins/docker', 'gcr.io/acme/app:1.0', 'acme/app',
          'redis:5', 'registry.local:5000/x/y:2', 'localhost/z', 'index.docker.io/library/redis', 'library/alpine:3', 'UPPER/case', 'a b',
          'acme/app:latest', 'docker.io/library/golang:latest', 'plugins/docker@sha256:' + 'ab' * 32, '', 'plugins/dockerish', 'drone/git', 'drone/docker',
          'quay.io/plugins/docker', 'gcr.io:443/acme/app:1.0', 'eu.gcr.io/acme/app:1.0', 'docker.io/acme/app']
WHITE = ['plugins/docker', 'plugins/ecr', 'gcr.io/acme/app', 'plugins/docker:3', 'redis', 'docker.io/acme/app']
NAMES = ['build', 'test', 'deploy', 'publish', 'redis', 'cache', 'notify', 'lint', 'Build', 'unit', 'e2e', 'web']
SKEYS = ['repo', 'tags', 'foo', 'FOO', 'Foo', 'dry_run', 'auto-tag', 'username', 'bar', 'depth', 'skip_verify', 'x.y']
EKEYS = ['FOO', 'GOOS', 'foo', 'PLUGIN_FOO', 'PLUGIN_REPO', 'PATH_X', 'CI_WORKSPACE', 'DRONE_WORKSPACE_BASE', 'DRONE_WORKSPACE', 'DRONE_WORKSPACE_PATH', 'CI_WORKSPACE_BASE', 'CI_WORKSPACE_PATH', 'plugin_bar', 'HOME', 'SHELL', 'PLUGIN_BAR']
STRS = ['octocat/hello', 'true', '1.10', '', 'a,b', 'x y', 'é', '{"a": 1}', 'null', '[1]', '$HOME', 'line\nbreak', '007']
SECRETS = ['token', 'password', 'ssh_key', 'docker_user', 'TOKEN']
COMMANDS = ['go build', 'go test ./...', 'echo "hi"', "echo 'x'", 'make', 'export A=1', 'cd sub && ls', 'echo $X `date`']
PATHS = ['/go', '/var/cache', '/tmp/x', 'src', '', '/data/']
VALS = {'branch': ['master', 'develop', 'feature/x', 'feature/x/y', ''], 'cron': ['', 'nightly', 'hourly'], 'event': ['push', 'pull_request', 'tag', 'promote', 'cron'],
        'instance': ['drone.company.com', 'drone.io', ''], 'ref': ['refs/heads/master', 'refs/tags/v1', 'refs/pull/5/head', ''],
        'repo': ['octocat/hello', 'acme/app', ''], 'target': ['', 'production', 'staging'], 'action': ['', 'opened', 'closed']}
PATS = {'branch': ['master', 'feature/*', 'feature/**', '*', 'm*', '{master,develop}', 'dev?lop', '[a-m]*', 'nope'], 'cron': ['nightly', 'n*', 'weekly'],
        'event': ['push', 'tag', 'pull_request', 'p*', 'promote'], 'instance': ['drone.company.com', '*.com', 'drone.io'], 'ref': ['refs/heads/*', 'refs/tags/**', 'refs/**', 'refs/pull/*/head'],
        'repo': ['octocat/*', 'acme/app', '*/*'], 'target': ['production', 'prod*', 'staging'], 'action': ['opened', 'closed', 'open*'],
        'status': ['success', 'failure', 'changed', 'fail*', '*', 'killed', 'succ?ss'], 'paths': ['README.md', 'src/**']}

SPICE = .3  # how many pipelines get values off the beaten track


class Pipe:
    def __init__(self, rnd, trust=.5, sound=.6, graph=None, build=.12, skip=.4, spiced=None):
        self.r = rnd
        self.trust, self.sound = trust, sound
        self.graph = rnd.random() < .5 if graph is None else graph
        self.pbuild = build
        self.pskip = skip
        self.g = Gen(rnd, odd=.15, wild=False)
        self.spicy = self.p(SPICE if spiced is None else spiced)
        for k in ('IMAGES', 'WHITE', 'NAMES', 'SKEYS', 'EKEYS', 'STRS', 'SECRETS', 'COMMANDS', 'PATHS', 'VALS', 'PATS'):
            setattr(self, k, globals()[k])
        if self.spicy:
            sp = lambda k, ok=None: self.p(.35) and setattr(self, k, spice.pool(rnd, globals()[k], ok))
            image = lambda w: re.match(r'^[a-z0-9.-]+(:[0-9]+)?(/[a-z0-9.-]+)*(:[a-z0-9.-]+)?\Z', w) and not re.match(r'^[0-9a-f]{64}\Z', w)
            word = lambda w: re.match(r'^[A-Za-z0-9_.-]+(/[A-Za-z0-9_.-]+)*\Z', w)
            ident = lambda w: re.match(r'^[A-Za-z_][A-Za-z0-9_]*\Z', w)
            key = lambda w: re.match(r'^[A-Za-z_][A-Za-z0-9_.-]*\Z', w)
            sp('IMAGES', image), sp('WHITE', image), sp('NAMES'), sp('SKEYS', key), sp('EKEYS', ident), sp('STRS'), sp('SECRETS', key), sp('COMMANDS'), sp('PATHS')
            if self.p(.5):
                self.VALS = {k: spice.pool(rnd, [x for x in v if x] + [''], word) for k, v in VALS.items()}
                self.PATS = {k: spice.pool(rnd, v, lambda w: word(w) and w not in v) + [x for x in self.VALS.get(k, []) if x and self.p(.5)] for k, v in PATS.items()}

    def p(self, x):
        return self.r.random() < x

    def some(self, xs, lo=0, hi=2):
        if hi > 1 and self.p(.02):
            hi += 10
        return [self.r.choice(xs) for _ in range(self.r.randint(lo, hi))]

    def distinct(self, xs, n):
        xs = list(dict.fromkeys(xs))
        self.r.shuffle(xs)
        return xs[:n]

    def cond(self, k):
        x = self.r.random()
        if x < .25:
            return self.r.choice(self.PATS[k])
        if x < .5:
            return self.some(self.PATS[k], 0, 2)
        out = {}
        if self.p(.7):
            out['include'] = self.some(self.PATS[k], 0, 2) if self.p(.8) else self.r.choice(self.PATS[k])
        if self.p(.5):
            out['exclude'] = self.some(self.PATS[k], 0, 2) if self.p(.8) else self.r.choice(self.PATS[k])
        return out

    def when(self):
        out = {}
        for k in self.PATS:
            if self.p(.35 if k == 'status' else .1):
                out[k] = self.cond(k)
        return out

    def setval(self, d=0, innull=True):
        x = self.r.random()
        if x < .4 or d > 2:
            return self.r.choice([s for s in self.STRS if s not in ('null',)])
        if x < .5:
            return self.r.choice([True, False])
        if x < .6:
            return self.r.choice([0, 1, -5, 8080, 1000000, 123456789])
        if x < .65:
            return self.r.choice([fl(1500), fl(250), fl(99125)]) if self.p(.5) else flt(self.number())
        if x < .82:
            if self.p(.6):
                return [self.setval(9) for _ in range(self.r.randint(0, 3) if self.p(.9) else self.r.randint(8, 40))]
            return [self.setval(d + 1) for _ in range(self.r.randint(0, 3))]
        return {k: self.setval(d + 1) for k in self.distinct(['a', 'b', 'c d', 'E', 'x-1'] + ['k%d' % i for i in range(15)] * self.p(.05), self.r.randint(0, 3) if self.p(.95) else self.r.randint(5, 18))}

    def number(self):
        """the text of a float that is no integer between 10^6 and 2^53"""
        while True:
            r = self.r
            x = r.random()
            if x < .4:
                t = '%s%d.%s' % (r.choice(['', '-']), r.choice([0, 3, 12, 999999, 1234567]), ''.join(r.choice('0123456789') for _ in range(r.randint(1, 14))))
            elif x < .8:
                t = '%d.%se%s%02d' % (r.randint(1, 9), ''.join(r.choice('0123456789') for _ in range(r.randint(1, 15))), r.choice('+-'), r.randint(1, 40))
            else:
                t = repr(r.random() * 10 ** r.randint(-8, 8))
            v = float(t)
            if v != int(v) or abs(v) >= 2 ** 54 or abs(v) < 10 ** 6:
                return t if '.' in t else t.replace('e', '.0e')

    def env(self):
        out = {}
        for k in self.distinct(self.EKEYS, self.r.randint(0, 4) if self.p(.97) else 16):
            x = self.r.random()
            out[k] = None if x < .05 else {'from_secret': self.r.choice(self.SECRETS)} if x < .35 else self.r.choice(self.STRS[:5] + self.STRS[5:8]) if x < .87 else {'value': self.r.choice(self.STRS[:4])} if x < .95 else {'value': self.r.choice(self.STRS[:2]), 'from_secret': self.r.choice(self.SECRETS)}
        return out

    def settings(self):
        out = {}
        for k in self.distinct(self.SKEYS, self.r.randint(0, 4) if self.p(.97) else 12):
            x = self.r.random()
            out[k] = None if x < .05 else {'from_secret': self.r.choice(self.SECRETS)} if x < .3 else self.setval()
        return out

    def mounts(self, vols):
        out = []
        for _ in range(self.r.randint(0, 3 if self.p(.98) else 13)):
            n = self.r.choice(vols + ['undeclared']) if vols and self.p(.9) else 'v9'
            if self.p(.06):
                n = self.r.choice(['_docker_socket', 'workspace', '_workspace', 'host'])
            out.append({'name': n, 'path': self.r.choice(self.PATHS)})
        if self.p(.03):
            out.append(None)
        return out

    def port(self):
        x = self.r.random()
        if x < .5:
            return self.r.choice([80, 443, 6379])
        if x < .53:
            return None
        o = {'port': self.r.choice([80, 443])}
        if self.p(.3 * self.trust):
            o['host'] = self.r.choice([8080, 0, 443])
        if self.p(.3):
            o['protocol'] = self.r.choice(['tcp', 'udp', ''])
        return o

    def container(self, name, seen, vols, service=False):
        r = self.r
        c = {}
        if not (self.p(.04) and self.p(1 - self.sound)):
            c['name'] = name
        isbuild = not service and self.p(self.pbuild)
        if isbuild:
            c['build'] = r.choice(self.IMAGES[6:9] + ['acme/app', 'golang', 'redis:5', 'acme/app:2', 'a b', 'eu.gcr.io/acme/app']) if self.p(.4) else self.g.obj({
                'image': lambda: r.choice(['acme/app', 'gcr.io/acme/app:1.0', 'golang:1.11', 'alpine', '']), 'context': lambda: r.choice(['.', 'sub', '']),
                'dockerfile': lambda: r.choice(['Dockerfile', 'd/Dockerfile.x']), 'cache_from': lambda: self.some(['a:1', 'b', 'c:3'], 0, 3),
                'args': lambda: {'A': 'b'}, 'labels': lambda: {'l': 'm'}}, p=.7)
            if self.p(.2):
                c['push'] = 'acme/app:9'
        if not isbuild or self.p(.2):
            if not (self.p(.04) and self.p(1 - self.sound)):
                c['image'] = r.choice(self.IMAGES) if self.p(.9) else self.g.string()
                if c['image'] == '' and self.p(self.sound):
                    c['image'] = 'alpine'
        if self.p(.4):
            c['commands'] = (self.some(self.COMMANDS, 0, 3) if self.p(.93) else [''] + self.some(self.COMMANDS + [''], 0, 2))
        if self.p(.15):
            c['command'] = self.some(['-v', 'run', 'serve'], 0, 2)
        if self.p(.15):
            c['entrypoint'] = self.some(['/bin/x', '-c'], 0, 2)
        if self.p(.2):
            c['detach'] = r.choice([True, True, False, S('yes', 'bool', True)])
        if self.graph and self.p(.5):
            c['depends_on'] = self.distinct(seen, r.randint(0, 2) if self.p(.95) else min(len(seen), r.randint(2, 9))) if self.p(self.sound) else self.some(list(seen) + [name, 'missing', 'clone'], 0, 3)
        t = self.trust * .3
        if self.p(t):
            c['privileged'] = r.choice([True, False])
        if self.p(t):
            c['devices'] = [{'name': 'd%d' % i, 'path': '/dev/x'} for i in range(r.randint(0, 2))]
        if self.p(t):
            c['dns'] = self.some(['8.8.8.8', '1.1.1.1'], 0, 2)
        if self.p(t):
            c['dns_search'] = self.some(['local', 'corp', '.'], 0, 2)
        if self.p(t):
            c['extra_hosts'] = self.some(['a:1.2.3.4', 'b:5.6.7.8'], 0, 2)
        if self.p(t):
            c['network_mode'] = r.choice(['host', 'bridge', 'none', ''])
        if self.p(.6):
            c['environment'] = self.env()
        if self.p(.5):
            c['settings'] = self.settings()
        if self.p(.2):
            c['failure'] = r.choice(['ignore', 'IGNORE', 'fail', 'always', 'Ignore', ' ignore', 'ignored', 'ignore '])
        if self.p(.3):
            c['ports'] = [self.port() for _ in range(r.randint(0, 3))]
        if self.p(.3):
            c['pull'] = r.choice(['always', 'if-not-exists', 'never', 'default', 'Always', 'NEVER', 'IF-NOT-EXISTS', 'true', 'missing', ''])
        if self.p(.25):
            c['resources'] = self.g.resources()
        if self.p(.15):
            c['user'] = r.choice(['root', '1000', 'a:b'])
        if self.p(.4):
            c['volumes'] = self.mounts(vols)
        if self.p(self.pskip):
            c['when'] = self.when()
        if self.p(.3):
            c['working_dir'] = r.choice(['/go/src', 'rel', '/'])
        if self.p(.1):
            c['shell'] = r.choice(['bash', '/bin/zsh'])
        return c

    def names(self, n):
        if n > len(self.NAMES):
            q = self.NAMES + ['s%d' % i for i in range(n)]
            q = self.distinct(q, n)
            if self.p((1 - self.sound) / 2):
                q[self.r.randrange(n)] = self.r.choice(q + ['clone'])
            return q
        if self.p(self.sound):
            return self.distinct(self.NAMES, n)
        return [self.r.choice(self.NAMES + ['clone', '']) for _ in range(n)]

    def pipeline(self, nsteps=4, nsvc=2):
        r = self.r
        d = {'kind': r.choice(['pipeline', 'pipeline', 'pipeline', 'job'])}
        if self.p(.6):
            d['type'] = r.choice(['docker', '', 'exec'])
        if self.p(.8):
            d['name'] = r.choice(['default', 'linux', 'after'])
        if self.p(.5):
            os = r.choice(['linux', 'windows', '', 'windows'])
            d['platform'] = {'os': os, 'arch': r.choice(['amd64', 'arm', 'arm64', ''])}
            if not self.p(self.sound):
                d['platform']['arch'] = r.choice(['386', 'amd64', 'ppc64le', 's390x', 'x'])
                d['platform']['os'] = r.choice(['darwin', 'linux', 'Linux', os])
            if self.p(.5):
                d['platform']['version'] = r.choice(['1809', '1903', '1709', '1803', '2019'])
            if self.p(.2):
                d['platform']['variant'] = 'v7'
        if self.p(.5):
            d['clone'] = self.g.obj({'disable': lambda: r.choice([True, False]), 'depth': lambda: r.choice([0, 1, 50, -1]), 'skip_verify': lambda: r.choice([True, False])}, p=.6)
        if self.p(.5):
            d['workspace'] = self.g.obj({'base': lambda: r.choice(['/go', '/drone/src', '/a/b/', '', 'rel', '/x/../y', '/', '//w//', '/go/..', '.']), 'path': lambda: r.choice(['src/github.com/a/b', 'src/github.com/octocat/hello/world/a/b/c/d', '', 'p', '../q', './z', '/abs', 'a//b'])}, p=.7)
        vols = self.distinct(['v1', 'v2', 'cache', 'host', 'V2', 'Cache'] if self.p(.2) else ['v1', 'v2', 'cache'], r.randint(0, 3))
        if self.p(.6):
            d['volumes'] = []
            for v in vols:
                if self.p(.03):
                    d['volumes'].append(None)
                x = r.random()
                if x < .55:
                    d['volumes'].append({'name': v, 'temp': self.g.obj({'medium': lambda: r.choice(['memory', '']) if self.p(self.trust) else '', 'size_limit': self.g.size})})
                elif x < .55 + .4 * self.trust:
                    d['volumes'].append({'name': v, 'host': {'path': r.choice(['/var/lib', '/etc'])}})
                elif x < .95:
                    d['volumes'].append({'name': v, 'temp': {}})
                else:
                    d['volumes'].append({'name': v})
                if self.p(.1 * self.trust):
                    d['volumes'][-1].setdefault('temp', {'size_limit': self.g.size()} if self.p(.5) else {})
                    d['volumes'][-1].setdefault('host', {'path': '/srv'})
            if self.p(.05) and not self.p(self.sound):
                d['volumes'].append({'name': r.choice(['workspace', '_workspace', '_docker_socket']), 'temp': {}})
        ns, nv = r.randint(0, nsteps), r.randint(0, nsvc)
        if self.p(.025):
            # many containers
            ns, nv = r.randint(8, 26), r.randint(0, 12)
        names = self.names(ns + nv)
        seen = [] if d.get('clone', {}).get('disable') else (['clone'] if self.p(.3) else [])
        steps, svcs = [], []
        for i, n in enumerate(names):
            (steps if i < ns else svcs).append(self.container(n, seen, vols, i >= ns))
            seen = seen + [n]
        if self.p(.06) and not self.p(self.sound):
            steps.insert(r.randrange(len(steps) + 1), None)
        if nv or self.p(.1):
            d['services'] = svcs
        if ns or self.p(.5):
            d['steps'] = steps
        if self.spicy and self.p(.8):
            spice.pipeline(r, d)
        items = list(d.items())
        r.shuffle(items)
        return dict(items)

    def build(self):
        return {k: self.r.choice(v) for k, v in self.VALS.items()}

    def opts(self):
        r = self.r
        o = {'creds': r.choice(['', 'https://u:p@github.com', '']), 'usedind': self.p(.6), 'dind': self.distinct(self.WHITE, r.randint(0, 4)), 'host': '', 'hostmount': False}
        if self.p(.6):
            o['skip'] = self.build()
        if self.p(.25):
            o['host'], o['hostmount'] = '/tmp/host', True
            if self.p(.2):
                o[r.choice(['hostmount'])] = False
        return o

    # ---- transforms ----
    def labels(self):
        return {k: self.r.choice(['1', 'x', '']) for k in self.distinct(['io.a', 'io.b', 'io.drone.step.name', 'io.drone.pipeline.name'], self.r.randint(0, 2))}

    def of_kind(self, f, n):
        return [self.transform(f=f) for _ in range(n)]

    def transform(self, d=0, f=None):
        r = self.r
        f = f or r.choice(['include', 'exclude', 'resume', 'environ', 'labels', 'limits', 'netrc', 'networks', 'volumes', 'volumeslice', 'secrets', 'secretfunc', 'auths', 'authsfunc', 'proxy', 'combine'])
        t = {'F': f}
        if f in ('include', 'exclude'):
            t['Names'] = self.some(self.NAMES[:8] + ['clone', ''], 0, 4)
        elif f == 'resume':
            t['Name'] = r.choice(self.NAMES[:8] + ['', 'clone', 'missing'])
        elif f == 'environ':
            t['Map'] = {k: r.choice(['1', 'x', '']) for k in self.distinct(self.EKEYS + ['NEW'], r.randint(0, 3))}
        elif f == 'labels':
            t['Map'] = self.labels()
        elif f == 'limits':
            t['Mem'], t['CPU'] = r.choice([0, 0, 1024, 1000, 1073741824]), r.choice([0, 0, 500, 1000])
        elif f == 'netrc':
            t['Map'] = {'machine': r.choice(['github.com', '']), 'username': r.choice(['u', 'u', '']), 'password': r.choice(['p', 'p', ''])}
        elif f == 'networks':
            t['List'] = self.some(['net1', 'net2'], 0, 2)
        elif f == 'volumes':
            t['Map'] = {k: r.choice(['/c1', '/c2']) for k in self.distinct(['/h1', '/h2', '/h3'], r.randint(0, 2))}
        elif f == 'volumeslice':
            t['List'] = self.some(['/h1:/c1', '/h2:/c2', '/h1:/c3', 'bad', '/h4:/c4:ro', '/h5:/c5', 'x:', ''], 0, 3)
        elif f == 'secrets':
            t['Map'] = {k: 'v-' + k for k in self.distinct(self.SECRETS, r.randint(0, 3))}
        elif f == 'secretfunc':
            t['Have'] = self.distinct(self.SECRETS, r.randint(0, 5))
        elif f in ('auths', 'authsfunc'):
            t['Auths'] = [{'Address': r.choice(['docker.io', 'gcr.io']), 'Username': 'u%d' % i, 'Password': 'p'} for i in range(r.randint(0, 2))]
        elif f == 'proxy':
            t['Env'] = {k: r.choice(['http://p', 'x', '']) for k in self.distinct(['no_proxy', 'NO_PROXY', 'http_proxy', 'HTTP_PROXY', 'https_proxy', 'HTTPS_PROXY'], r.randint(0, 4))}
        elif f == 'combine':
            t['Subs'] = [] if d > 1 else [self.transform(d + 1) for _ in range(r.randint(0, 3))]
        return t

    def transforms(self, hi=4):
        """volumes are attached at most once per case: a host path attached
        twice would give two volumes of one generated name"""
        out, vol = [], False

        def has(t):
            return t['F'] in ('volumes', 'volumeslice') or any(has(s) for s in t.get('Subs', []))

        def count(t):
            return (t['F'] in ('volumes', 'volumeslice')) + sum(count(s) for s in t.get('Subs', []))
        for _ in range(self.r.randint(0, hi)):
            t = self.transform()
            if count(t) > 1 or (vol and has(t)):
                continue
            vol = vol or has(t)
            out.append(t)
        return out
