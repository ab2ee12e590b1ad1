"""YAML trees: the abstract form the specification sees, and their text.

A tree is made of dict, list, str, int, bool, None and S (a scalar whose text
and type are given explicitly). `tag` gives the form judged by TLC, `emit` one
of its many spellings as text (styles drawn from a random source).
"""
import decimal, re


class S:
    """A plain scalar with explicit text: S('yes','bool',True), S('2.5','float')."""

    def __init__(self, text, t, val=None):
        self.text, self.t, self.val = text, t, val

    def __repr__(self):
        return 'S(%r,%r)' % (self.text, self.t)


def fl(milli):
    """float scalar from thousandths"""
    s = '%d.%03d' % (milli // 1000, milli % 1000)
    s = s.rstrip('0')
    if s.endswith('.'):
        s += '0'
    return S(s, 'float', milli)


def flt(text):
    """float scalar given by its text"""
    return S(text, 'float')


def shortest(x):
    """the shortest text of a float, with an exponent when it is < -4 or > 5"""
    sign, digits, e = decimal.Decimal(repr(x)).as_tuple()
    d = ''.join(map(str, digits))
    e += len(d) - len(d.rstrip('0'))
    d = d.rstrip('0') or '0'
    x = len(d) + e - 1
    if d == '0':
        t = '0'
    elif x < -4 or x >= 6:
        t = d[0] + ('.' + d[1:] if d[1:] else '') + 'e%s%02d' % ('-' if x < 0 else '+', abs(x))
    elif x < 0:
        t = '0.' + '0' * (-x - 1) + d
    elif e >= 0:
        t = d + '0' * e
    else:
        t = d[:x + 1] + '.' + d[x + 1:]
    return '-' * sign + t


def num_canon_milli(m):
    if m % 1000 == 0:
        return str(m // 1000)
    return ('%d.%03d' % (m // 1000, m % 1000)).rstrip('0')


BIG = 2**31 - 1


def tag(x):
    if x is None:
        return {'t': 'null', 's': ''}
    if isinstance(x, S):
        if x.t == 'bool':
            return {'t': 'bool', 's': x.text, 'b': x.val, 'c': 'true' if x.val else 'false'}
        if x.t == 'int':
            r = {'t': 'int', 's': x.text, 'c': str(x.val)}
            if abs(x.val) < BIG:
                r['n'] = x.val
            return r
        if x.t == 'float':
            if x.text.lower().lstrip('+-') in ('.inf', '.nan'):
                return {'t': 'float', 's': x.text, 'c': 'NaN' if 'n' in x.text.lower().replace('inf', '') else '-Inf' if x.text[0] == '-' else '+Inf'}
            if x.val is None:
                return {'t': 'float', 's': x.text, 'c': shortest(float(x.text))}
            return {'t': 'float', 's': x.text, 'm': x.val, 'c': num_canon_milli(x.val)}
        if x.t == 'null':
            return {'t': 'null', 's': x.text}
        if x.t == 'str':
            return {'t': 'str', 's': x.text, 'c': x.text}
        raise ValueError(x.t)
    if isinstance(x, bool):
        return {'t': 'bool', 's': 'true' if x else 'false', 'b': x, 'c': 'true' if x else 'false'}
    if isinstance(x, int):
        r = {'t': 'int', 's': str(x), 'c': str(x)}
        if abs(x) < BIG:
            r['n'] = x
        return r
    if isinstance(x, str):
        return {'t': 'str', 's': x, 'c': x}
    if isinstance(x, (list, tuple)):
        return {'t': 'seq', 'v': [tag(i) for i in x]}
    if isinstance(x, dict):
        out = []
        for k, v in x.items():
            kk = tag(k)
            y = {'str': 's', 'int': 'i', 'bool': 'b', 'float': 'i', 'null': 'n'}[kk['t']]
            out.append({'k': kk['s'], 'y': y, 'q': kk.get('c', ''), 'v': tag(v)})
        return {'t': 'map', 'v': out}
    raise ValueError(repr(x))


RESERVED = {'y', 'n', 'yes', 'no', 'on', 'off', 'true', 'false', 'null', '~', '.nan', '.inf', '<<'}
PLAIN = re.compile(r'^[A-Za-z_/*.+][A-Za-z0-9_./@+*-]*(:[A-Za-z0-9_./@+*-]+)*\Z')
# plain scalars with inner spaces, safe in block context only
PLAINB = re.compile(r'^[A-Za-z_/][A-Za-z0-9_./@=+$&|;!-]*( [A-Za-z0-9_./@=+$&|;!-]+)*\Z')


def numberish(s):
    return re.match(r'^[-+.]?[0-9]', s) or re.match(r'^[-+]?\.(inf|nan)', s, re.I)


def dq(s):
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch == '"':
            out.append('\\"')
        elif ch == '\\':
            out.append('\\\\')
        elif ch == '\n':
            out.append('\\n')
        elif ch == '\t':
            out.append('\\t')
        elif ch == '\r':
            out.append('\\r')
        elif o < 32 or o == 127 or o in (0x85, 0xa0, 0x2028, 0x2029, 0xfeff):
            out.append('\\x%02x' % o if o < 256 else '\\u%04x' % o)
        else:
            out.append(ch)
    out.append('"')
    return ''.join(out)


def single_ok(s):
    return all(32 <= ord(c) and ord(c) not in (127, 0x85, 0xa0, 0x2028, 0x2029, 0xfeff) for c in s)


def plain_ok(s, flow):
    if s.lower() in RESERVED or numberish(s) or s.startswith('*') or s.startswith('.') and len(s) < 4:
        return False
    if s.startswith('---') or s.startswith('...'):
        return False
    if PLAIN.match(s):
        return True
    if not flow and PLAINB.match(s) and ' #' not in s and ': ' not in s:
        return True
    return False


def scalar(x, rnd, flow=False, key=False):
    if x is None:
        return rnd.choice(['~', 'null']) if (flow or key or rnd.random() < .6) else ''
    if isinstance(x, S):
        if x.t == 'str':
            return x.text  # explicit spelling
        return x.text
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, int):
        return str(x)
    s = x
    r = rnd.random()
    if plain_ok(s, flow) and r < .75:
        return s
    if single_ok(s) and r < .9 and not (key and len(s) > 100):
        return "'" + s.replace("'", "''") + "'"
    return dq(s)


def is_scalar(x):
    return not isinstance(x, (dict, list, tuple))


def flow(x, rnd):
    if isinstance(x, dict):
        return '{' + ', '.join(scalar(k, rnd, True, True) + ': ' + flow(v, rnd) for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + rnd.choice(['', ' ']) + ', '.join(flow(v, rnd) for v in x) + rnd.choice(['', ' ']) + ']'
    return scalar(x, rnd, True)


def block(x, rnd, ind, out, pflow):
    """append lines for a non-empty dict or list at indent ind"""
    pad = ' ' * ind
    if isinstance(x, dict):
        for k, v in x.items():
            value(v, rnd, pad + scalar(k, rnd, False, True) + ':', ind, out, pflow)
    else:
        for v in x:
            if isinstance(v, dict) and v and rnd.random() < .9 and rnd.random() > pflow:
                sub = []
                block(v, rnd, ind + 2, sub, pflow)
                first = sub[0]
                sub[0] = pad + '- ' + first[ind + 2:]
                out.extend(sub)
            else:
                value(v, rnd, pad + '-', ind, out, pflow, seq=True)


def literal_ok(s):
    if '\n' not in s or s.strip('\n') == '' or s[0] in ' \n\t':
        return False
    for ln in s.split('\n'):
        if ln.strip() == '' and ln != '':
            return False
        if any(ord(c) < 32 for c in ln):
            return False
    return single_ok(s.replace('\n', ''))


def value(v, rnd, head, ind, out, pflow, seq=False):
    if is_scalar(v):
        if isinstance(v, str) and literal_ok(v) and rnd.random() < .6:
            body = v
            if body.endswith('\n\n'):
                ch, body = '+', body[:-1]
            elif body.endswith('\n'):
                ch, body = '', body[:-1]
            else:
                ch = '-'
            out.append(head + ' |' + ch)
            for ln in body.split('\n'):
                out.append(' ' * (ind + 2) + ln if ln else '')
            return
        t = scalar(v, rnd)
        out.append(head + (' ' + t if t else ''))
        return
    if not v:
        out.append(head + (' {}' if isinstance(v, dict) else ' []'))
        return
    if rnd.random() < pflow and len(repr(v)) < 400:
        out.append(head + ' ' + flow(v, rnd))
        return
    out.append(head)
    if isinstance(v, dict) or seq or rnd.random() < .5:
        block(v, rnd, ind + 2, out, pflow)
    else:
        block(v, rnd, ind, out, pflow)  # sequences may sit at the parent's indent


def emit(x, rnd, pflow=.25, comments=.1):
    out = []
    if is_scalar(x) or not x:
        return flow(x, rnd) + '\n'
    block(x, rnd, 0, out, pflow)
    if comments and rnd.random() < comments:
        i = rnd.randrange(len(out) + 1)
        # only between top-level keys
        tops = [j for j, ln in enumerate(out) if ln and ln[0] not in ' -#'] or [0]
        i = rnd.choice(tops)
        out.insert(i, rnd.choice(['# comment', '#', '   # indented: comment'] if ' |' not in ''.join(out) else ['# comment', '#']))
    return '\n'.join(out) + '\n'


def emit_docs(docs, rnd, **kw):
    s = ''
    for i, d in enumerate(docs):
        if i > 0 or rnd.random() < .7:
            s += rnd.choice(['---\n', '---\n', '--- # doc\n', '---\n\n'])
        s += emit(d, rnd, **kw)
    if rnd.random() < .3:
        s += '...\n'
    return s


def untag(t):
    """the tree of a tagged one"""
    if t['t'] == 'seq':
        return [untag(x) for x in t['v']]
    if t['t'] == 'map':
        return {(int(e['k']) if e['y'] == 'i' else e['k']): untag(e['v']) for e in t['v']}
    return {'null': lambda: None, 'bool': lambda: t['b'], 'int': lambda: t['n'], 'str': lambda: t['s'], 'float': lambda: flt(t['s'])}[t['t']]()
