"""Values off the beaten track for the generators: literals that the code
under test compares with (those it did not have when this was written come
first), and close relatives of the words already in a tree. None of this
decides anything; the specification says what every value must do."""
import json, os, re
from common import REPO, VERIF

VOCAB = os.path.join(VERIF, 'lib', 'vocabulary.json')
LIT = re.compile(r'"(?:[^"\\\n]|\\.)*"|`[^`]*`|//[^\n]*|/\*.*?\*/|\'(?:[^\'\\\n]|\\.)+\'|(?<![\w.])\d[\w.]*', re.S)


def harvest(root):
    """literals of the sources and how often they occur"""
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if not x.startswith('.') and x not in ('testdata', 'vendor', 'samples'))
        for f in sorted(fs):
            if not f.endswith('.go') or f.endswith('_test.go'):
                continue
            src = open(os.path.join(d, f), encoding='utf-8', errors='replace').read()
            src = re.sub(r'(?ms)^import\s*(\([^)]*\)|"[^"]*")', '', src)
            for m in LIT.finditer(src):
                t = m.group(0)
                if t[0] == '/':
                    continue
                if t[0] in '"\'':
                    try:
                        v = json.loads('"' + t[1:-1].replace("\\'", "'").replace('\\a', '') + '"' if t[0] == '"' else '"' + t[1:-1].replace("\\'", "'").replace('"', '\\"') + '"')
                    except ValueError:
                        continue
                elif t[0] == '`':
                    v = t[1:-1]
                    if re.match(r'(json|yaml):"', v):
                        continue
                else:
                    try:
                        v = int(t.replace('_', ''), 0)
                    except ValueError:
                        continue
                k = ('i:%d' % v) if isinstance(v, int) else 's:' + v
                if len(k) < 60:
                    out[k] = out.get(k, 0) + 1
    return out


def _load():
    base = json.load(open(VOCAB)) if os.path.exists(VOCAB) else {}
    now = harvest(REPO)
    fine = lambda s: s and all(' ' <= c <= '~' for c in s)
    fresh = [k for k in sorted(now) if now[k] > base.get(k, 0)]
    return ([k[2:] for k in sorted(now) if k[0] == 's' and fine(k[2:])], [k[2:] for k in fresh if k[0] == 's' and fine(k[2:])],
            [int(k[2:]) for k in fresh if k[0] == 'i'])


WORDS, FRESH, FRESHINTS = _load()
SAFE = re.compile(r'^[A-Za-z0-9][A-Za-z0-9_.-]*\Z')


def variant(r, s):
    """a word close to s"""
    x = r.randrange(16)
    if x == 0:
        return s.upper()
    if x == 1:
        return s.title()
    if x == 2:
        return s.swapcase()
    if x == 3:
        return s.lower()
    if x == 4:
        return s + r.choice(['d', 's', '-x', '_', '0', '2'])
    if x == 5:
        return r.choice(['x', '_', 'a-', '-', '0']) + s
    if x == 6:
        return s + r.choice([' ', '\n', '\t', '.', '/'])
    if x == 7:
        return r.choice([' ', '.', '/']) + s
    if x == 8:
        return s[:-1]
    if x == 9:
        return s[1:]
    if x == 10:
        return s.replace('-', '_') if '-' in s else s.replace('_', '-')
    if x == 11:
        return s + s
    if x == 12:
        return ''
    if x == 13 and len(s) > 1:
        i = r.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if x == 14 and len(s) > 1:
        i = r.randrange(len(s))
        return s[:i] + s[i].swapcase() + s[i + 1:]
    return word(r)


def word(r, safe=False):
    for _ in range(20):
        x = r.random()
        if FRESH and x < .7:
            w = r.choice(FRESH)
        else:
            w = r.choice(WORDS)
        x = r.random()
        if x < .25:
            w = r.choice([w + 'x', 'x' + w, w.upper(), w.title(), w[:-1], w + '-1'])
        if not safe or SAFE.match(w):
            return w
    return 'x'


def number(r, default=1):
    if FRESHINTS:
        return r.choice(FRESHINTS) + r.choice([0, 0, 1, -1])
    return default


def length(r):
    """a length of a list that matters, if the code has a new one"""
    ns = [n for n in FRESHINTS if 1 < n <= 64]
    return r.choice(ns) + r.choice([0, 1, 1, 2, -1]) if ns else r.choice([0, 1, 2, 3, 7, 12])


def pool(r, xs, ok=None):
    """a pool with a few more words: relatives of its own and literals"""
    xs = list(xs)
    for _ in range(r.randint(1, 3)):
        w = variant(r, r.choice(xs)) if r.random() < .6 else word(r)
        if w not in xs and (ok is None or ok(w)):
            xs.append(w)
            if r.random() < .5:
                xs += [w] * (len(xs) // 4)
    return xs


# ---- trees ----
def leaves(t, path=()):
    if isinstance(t, dict):
        for k in t:
            yield from leaves(t[k], path + (k,))
    elif isinstance(t, list):
        for i, x in enumerate(t):
            yield from leaves(x, path + (i,))
    elif type(t) is str or type(t) is int:
        yield path, t


def lists(t, path=()):
    if isinstance(t, dict):
        for k in t:
            yield from lists(t[k], path + (k,))
    elif isinstance(t, list):
        yield path, t
        for i, x in enumerate(t):
            yield from lists(x, path + (i,))


def put(t, path, v):
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v


# the fields of a pipeline that take any text, and lists of them
TEXT = {'name', 'failure', 'pull', 'user', 'shell', 'working_dir', 'network_mode', 'dns', 'dns_search', 'extra_hosts', 'command', 'entrypoint', 'commands', 'depends_on',
        'protocol', 'medium', 'path', 'os', 'arch', 'version', 'variant', 'base', 'environment', 'settings', 'value', 'from_secret', 'type', 'context', 'dockerfile', 'cache_from', 'args', 'labels', 'image_pull_secrets'}
LISTS = {'dns', 'dns_search', 'extra_hosts', 'command', 'entrypoint', 'commands', 'depends_on', 'cache_from'}
NUMS = {'port', 'host', 'depth', 'limit'}


def field(path):
    for k in reversed(path):
        if isinstance(k, str):
            return k


def opaque(path):
    return 'settings' in path or 'environment' in path


def pipeline(r, d, text=lambda s: True):
    """change a few leaves of a pipeline, in place"""
    for _ in range(r.choice([1, 1, 2, 3])):
        ls = [(p, v) for p, v in leaves(d) if p and 'when' not in p and (field(p) in TEXT or opaque(p)) and p[0] not in ('kind',) and type(v) is str]
        ns = [(p, v) for p, v in leaves(d) if p and type(v) is int and field(p) in NUMS and not opaque(p) and 'when' not in p]
        ll = [(p, v) for p, v in lists(d) if field(p) in LISTS and not opaque(p) and 'when' not in p]
        x = r.random()
        if x < .35 and ls:
            p, v = r.choice(ls)
            w = variant(r, v)
            if text(w):
                put(d, p, w)
        elif x < .6 and ls:
            # everywhere, or everywhere but here
            p, v = r.choice(ls)
            w = variant(r, v)
            skip = r.choice(ls)[0] if r.random() < .2 else None
            if text(w):
                for q, u in ls:
                    if u == v and q != skip:
                        put(d, q, w)
        elif x < .85 and ll:
            p, v = r.choice(ll)
            y = r.random()
            names = field(p) == 'depends_on'
            if y < .3:
                v.insert(r.choice([0, len(v)]), '')
            elif y < .5 and v:
                v.insert(r.randrange(len(v) + 1), r.choice(v))
            elif y < .75:
                v.insert(r.choice([0, len(v)]), variant(r, r.choice(v)) if v else word(r))
            elif v and not names:
                n = max(0, length(r))
                v[:] = [v[i % len(v)] + ('' if i < len(v) else str(i)) for i in range(n)]
        elif ns:
            p, v = r.choice(ns)
            put(d, p, number(r, r.choice([0, 1, -1, v + 1])))
        vs = d.get('volumes')
        if vs and r.random() < .3:
            v = r.choice(vs)
            if isinstance(v, dict) and r.random() < .5:
                v.setdefault('temp', {})
            if isinstance(v, dict) and r.random() < .3:
                v.setdefault('host', {'path': '/srv'})
    return d
