"""Random configurations, as trees (see ytree)."""
import spice
from ytree import S, fl

WORDS = ['build', 'test', 'deploy', 'backend', 'frontend', 'publish', 'notify', 'redis', 'database', 'cache', 'a', 'b', 'lint']
ODD = ['', ' ', 'true', 'no', 'NULL', '0', '007', '1e3', '0x1F', '1_000', '12:30', '-', '- a', ': ', 'a: b', 'key: [1]', '# no', 'x # y',
       '"quoted"', "it's", '{a}', '[b]', '*star', '&amp', '!tag', '%pct', '@at', '`tick`', '|', '>', 'a\nb', 'a\n\nb\n', '\ttab', ' lead', 'trail ',
       'é', '日本', '\u2028x', '---', '...', '--- x', '2001-01-01', '1.0', '.5', '~x', '=', '<<', 'a,b', 'a=b', '$HOME', '${X}', '\\n', 'back\\slash', 'A B', 'q"x\'y',
       'multi\nline\n', '\x07bell', 'non\xa0break', '...x', '?', '? a', '!!str a', 'x:', ':x', '0o7', '+1', '-1', '.inf', '.nan', 'on', 'Off', 'y', 'N']


# numbers that are not shown by their digits
SPECIAL = [S('.inf', 'float'), S('-.inf', 'float'), S('.nan', 'float'), S('+.Inf', 'float'), S('.NaN', 'float'), S('18446744073709551615', 'int', 2 ** 64 - 1), S('9223372036854775808', 'int', 2 ** 63),
    S('9223372036854775807', 'int', 2 ** 63 - 1), S('-9223372036854775808', 'int', -2 ** 63), S('0x1F', 'int', 31), S('0b11', 'int', 3), S('1_000', 'int', 1000), S('017', 'int', 15), S('+5', 'int', 5)]


class Gen:
    def __init__(self, rnd, odd=.25, null=.04, wild=True, special=True):
        self.r = rnd
        self.odd = odd
        self.null = null
        self.wild = wild
        self.special = special and wild  # numbers that json cannot hold

    def p(self, x):
        return self.r.random() < x

    def pick(self, *a):
        return self.r.choice(a)

    def word(self):
        r = self.r
        w = r.choice(WORDS)
        if r.random() < .3:
            w += r.choice(['-', '_', '.', '/']) + r.choice(WORDS)
        return w

    def string(self):
        r = self.r
        if r.random() < .05:
            return spice.variant(r, r.choice(WORDS)) if r.random() < .3 else spice.word(r) if r.random() < .85 else self.long()
        if r.random() < self.odd:
            s = r.choice(ODD)
            if r.random() < .1:
                s = s + r.choice(ODD)
            return s
        return self.word()

    def str_(self):
        """a tree that a string field accepts"""
        r = self.r
        x = r.random()
        if x < self.null:
            return None
        if x < self.null + .04 and self.wild:
            return r.choice([S('true', 'bool', True), S('yes', 'bool', True), S('Off', 'bool', False), r.randrange(0, 9000), fl(r.randrange(1, 9000)),
                             S('0x1F', 'int', 31), S('1_000', 'int', 1000), S('010', 'int', 8)])
        return self.string()

    def long(self):
        """a long text: words, or one word, or lines"""
        r = self.r
        n = r.choice([9, 15, 30, 60, 150])
        sep = r.choice([' ', ' ', '  ', '', '\n', ' \n', ', ', ': ', ' # '])
        return sep.join(r.choice(WORDS) for _ in range(n)) + r.choice(['', '', ' ', '\n'])

    def few(self, hi=3):
        return self.r.randint(0, hi) if self.p(.97) else self.r.randint(8, 20)

    def among(self, *ws):
        """a text field, often with a value that means something there"""
        return (lambda: self.pick(*ws) if self.p(.3) else self.str_())

    def int_(self):
        if spice.FRESHINTS and self.p(.1):
            return spice.number(self.r)
        return self.pick(0, 1, 2, 50, 80, 8080, 65535, None, -1) if self.p(.9) else self.r.randrange(0, 100000)

    def bool_(self):
        return self.pick(True, True, True, False, None, S('yes', 'bool', True), S('On', 'bool', True), S('no', 'bool', False), S('FALSE', 'bool', False))

    def many(self, f, lo=0, hi=3):
        if self.p(.015):
            hi += 10
        return [f() for _ in range(self.r.randint(lo, hi))]

    def list_(self):
        return None if self.p(self.null) else self.many(self.str_)

    def strmap(self):
        if self.p(self.null):
            return None
        return self.twins({self.key(): self.str_() for _ in range(self.few())}, self.str_)

    def twins(self, m, f):
        """keys that differ in case only, or by little"""
        while m and self.p(.15):
            k = self.pick(*m)
            if not isinstance(k, str) or isinstance(k, S):
                break
            k = self.pick(k.swapcase(), k.upper(), k.lower(), k.title(), k + ' ', k + '_', k.replace('-', '_'), k + '0')
            if k and k != '<<' and len(k) < 60:
                m.setdefault(k, f())
        return m

    def key(self):
        s = self.string()
        while s in ('<<',) or len(s) > 60:
            s = self.word()
        return s

    def build(self):
        x = self.r.random()
        if x < .35:
            return self.nonnullstr()
        return self.obj({'image': self.str_, 'context': self.among('.', './', '/'), 'dockerfile': self.among('Dockerfile', './Dockerfile'), 'cache_from': self.list_, 'args': self.strmap, 'labels': self.strmap})

    def nonnullstr(self):
        while True:
            s = self.str_()
            if s is not None and not (isinstance(s, str) and s in ('null', '~')):
                return s

    def obj(self, fields, p=.6, extra=.05):
        r = self.r
        out = {}
        ks = list(fields)
        r.shuffle(ks)
        for k in ks:
            if r.random() < p:
                out[k] = fields[k]()
        if r.random() < extra:
            out['x_' + r.choice(WORDS)] = r.choice([1, 'u', [1, 'two'], {'a': None}])
        return out

    def push(self):
        if self.p(.5):
            return self.nonnullstr()
        return self.obj({'image': self.str_})

    def port(self):
        if self.p(.03):
            return None
        if self.p(.5):
            return self.r.randrange(1, 65536)
        return self.obj({'port': self.int_, 'host': self.int_, 'protocol': self.among('tcp', 'TCP', 'udp')})

    def var(self):
        x = self.r.random()
        if x < .04:
            return None
        if x < .7:
            return self.nonnullstr()
        if x < .9:
            return {'from_secret': self.str_()}
        return self.obj({'value': self.str_, 'from_secret': self.str_})

    def opaque(self, d=0):
        x = self.r.random()
        if x < .45 or d > 3:
            s = self.string()
            return s
        if x < .52:
            return self.r.choice([True, False, S('yes', 'bool', True)])
        if x < .62:
            return self.r.choice([0, 1, 42, -7, 8080, 123456789])
        if x < .66 and self.special and self.p(.3):
            return self.r.choice(SPECIAL)
        if x < .66:
            return fl(self.r.randrange(1, 100000))
        if x < .69:
            return None
        if x < .86:
            return [self.opaque(d + 1) for _ in range(self.few() if d < 2 else self.r.randint(0, 3))]
        return self.twins({self.okey(): self.opaque(d + 1) for _ in range(self.few() if d < 2 else self.r.randint(0, 3))}, lambda: self.opaque(d + 1))

    def okey(self):
        if self.p(.1):
            return self.r.choice([1, 42, S('true', 'bool', True)])
        return self.key()

    def setting(self):
        x = self.r.random()
        if x < .04:
            return None
        if x < .25:
            return {'from_secret': self.str_()}
        s = self.opaque()
        if isinstance(s, str) and s in ('null', '~'):
            s = 'x'
        return s

    def cond(self):
        x = self.r.random()
        if x < .3:
            return self.nonnullstr()
        if x < .6:
            return self.list_()
        return self.obj({'include': self.list1, 'exclude': self.list1}, p=.7)

    def list1(self):
        return self.list_() if self.p(.7) else self.nonnullstr()

    def conds(self):
        f = {k: self.cond for k in ('action', 'cron', 'ref', 'repo', 'instance', 'target', 'event', 'branch', 'status', 'paths')}
        f['matrix'] = self.strmap
        return self.obj(f, p=.25)

    def size(self):
        r = self.r
        x = r.random()
        n = r.choice([0, 1, 2, 3, 64, 100, 512, 1000, 1024, 1536, 4096])
        if x < .1:
            return None
        if x < .35:
            return n
        sfx = r.choice(['', 'b', 'B', 'k', 'K', 'kb', 'KB', 'KiB', 'kib', 'm', 'M', 'MB', 'mb', 'MiB', 'g', 'G', 'GB', 'GiB', 't', 'TB'])
        sp = r.choice(['', '', ' ']) if sfx else ''
        if n > 1024 and sfx[:1].lower() in ('g', 't'):
            n = n // 1024
        if sfx[:1].lower() in tuple('kmgt') and r.random() < .2:
            return '%d.5%s%s' % (n, sp, sfx)
        if sfx == '':
            return S("'%d'" % n, 'str') if False else str(n)
        return '%d%s%s' % (n, sp, sfx)

    def cpu(self):
        return self.pick(None, 0, 1, 2, 4, fl(500), fl(1500), fl(250), fl(100), fl(self.r.randrange(1, 9999)), 100)

    def resobj(self):
        return None if self.p(.05) else self.obj({'cpu': self.cpu, 'memory': self.size}, p=.7)

    def resources(self):
        return None if self.p(.05) else self.obj({'limits': self.resobj, 'requests': self.resobj}, p=.7)

    def namepath(self):
        return None if self.p(.03) else self.obj({'name': self.str_, 'path': self.str_}, p=.85)

    def mapof(self, f, keyf=None):
        if self.p(self.null):
            return None
        return self.twins({(keyf or self.key)(): f() for _ in range(self.few())}, f)

    def container_fields(self):
        return {'build': self.build, 'command': self.list_, 'commands': self.list_, 'detach': self.bool_, 'depends_on': self.list_,
                'devices': lambda: self.many(self.namepath), 'dns': self.list_, 'dns_search': self.list_, 'entrypoint': self.list_,
                'environment': lambda: self.mapof(self.var), 'extra_hosts': self.list_, 'failure': self.among('ignore', 'always', 'fail'), 'image': self.str_,
                'network_mode': self.among('bridge', 'default', 'host', 'none'), 'name': self.str_, 'ports': lambda: self.many(self.port), 'privileged': self.bool_,
                'pull': self.among('always', 'never', 'if-not-exists', 'default'), 'push': self.push, 'resources': self.resources, 'settings': lambda: self.mapof(self.setting),
                'shell': self.among('/bin/sh', 'sh', 'bash'), 'user': self.among('root', '0'), 'volumes': lambda: self.many(self.namepath), 'when': self.conds, 'working_dir': self.among('/drone/src', '.', '/')}

    def container(self):
        if self.p(.03):
            return None
        return self.obj(self.container_fields(), p=self.pick(.15, .3, .6))

    def volume(self):
        if self.p(.03):
            return None
        return self.obj({'name': self.str_, 'temp': lambda: None if self.p(.2) else self.obj({'medium': self.among('memory', 'disk', 'Memory'), 'size_limit': self.size}),
                         'host': lambda: None if self.p(.2) else self.obj({'path': self.str_})}, p=.6)

    def pipeline_fields(self):
        return {'version': self.among('1', '0', 'v1'), 'type': self.among('docker', 'exec', 'kubernetes'), 'name': self.among('default', 'Default'),
                'clone': lambda: self.obj({'disable': self.bool_, 'depth': self.int_, 'skip_verify': self.bool_}),
                'concurrency': lambda: self.obj({'limit': self.int_}), 'depends_on': self.list_, 'node': self.strmap,
                'platform': lambda: self.obj({'os': self.among('linux', 'windows', 'Linux'), 'arch': self.among('amd64', 'arm', 'arm64', 'AMD64'), 'variant': self.among('v7', 'v8'), 'version': self.among('1809', '1903', '0')}),
                'image_pull_secrets': self.list_, 'services': lambda: self.many(self.container, 0, 2), 'steps': lambda: self.many(self.container, 0, 3),
                'trigger': self.conds, 'volumes': lambda: self.many(self.volume), 'workspace': lambda: self.obj({'base': self.among('/drone/src', '/drone', '/go', '/'), 'path': self.among('.', 'src', '/drone/src')})}

    KINDS = ('pipeline', 'cron', 'secret', 'signature', 'registry')

    def resource(self, kind=None):
        kind = kind or self.r.choices(self.KINDS, (6, 1, 1, 1, 1))[0]
        if kind == 'cron':
            f = {'version': self.str_, 'type': self.str_, 'name': self.str_,
                 'spec': lambda: self.obj({'schedule': self.str_, 'branch': self.among('master', 'main'), 'deployment': lambda: self.obj({'target': self.str_})}, p=.8)}
        elif kind == 'secret':
            f = {'version': self.str_, 'type': self.str_, 'name': self.str_, 'data': self.str_,
                 'get': lambda: self.obj({'path': self.str_, 'name': self.str_, 'key': self.str_})}
        elif kind == 'signature':
            f = {'version': self.str_, 'hmac': self.str_}
        elif kind == 'registry':
            f = {'version': self.str_, 'type': self.str_, 'data': self.strmap}
        else:
            f = self.pipeline_fields()
            if self.p(.05):
                kind = self.r.choice(['Pipeline', 'deploy', 'x', 'Secret', spice.variant(self.r, self.r.choice(self.KINDS))])
                if kind in self.KINDS or kind in ('', '~', 'null'):
                    kind = 'deploy'
        d = self.obj(f, p=self.pick(.3, .6, .8))
        items = list(d.items())
        items.insert(self.r.randrange(len(items) + 1), ('kind', kind))
        return dict(items)

    def docs(self, hi=3):
        return [self.resource() for _ in range(self.r.randint(1, hi) if self.p(.97) else self.r.randint(8, 20))]


BADVALS = {'seq': ['a', 'b'], 'map': {'a': 'b'}, 'str': 'zzz', 'int': 3, 'null': None}


def mutate(rnd, d, depth=0):
    """replace a random value of the tree by one of another shape"""
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                paths.append(path + [k])
                walk(v, path + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                paths.append(path + [i])
                walk(v, path + [i])
    walk(d, [])
    if not paths:
        return d
    p = rnd.choice(paths)
    x = d
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] = rnd.choice([['a', 'b'], {'a': 'b'}, 'zzz', 3, [], {}, True, [['x']], [{'a': 1}], {'include': {'a': 1}}])
    return d
