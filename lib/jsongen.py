"""Random JSON documents as trees, their serialisations, and reference readings.
tree: ('o', [(key, tree)...]) | ('a', [tree...]) | ('s', str) | ('n', literal) | ('l', 'true'|'false'|'null')
Python strings may contain lone surrogates, which only exist as \\u escapes in JSON text."""
import json, math

WORDS = ['a', 'b', 'c', 'key', 'name', 'value', 'id', 'x1', 'x2', 'x10', 'items', 'Zed', 'zed', 'A', '_', '0', '1', '10', '2',
         'true', 'null', 'length', 'foo', 'bar', 'baz', 'hello world', 'some longer text here', '', ' ', '-', '{', '}', '[', ']', ',', ':',
         '"', '\\', '/', '\\n', '\n', '\t', '\r', '\b', '\f', 'a"b', "it's", '\\u0041', '#', '//', '/*', 'é', 'ü', '€', 'ß', '日本', '😀', '\u00a0',
         '\u007f', '\u0080', '\u2028', '\ufeff', '\uffff', '\U0010ffff', '\x01', '\x1f', '\x00']
INT_EDGES = [0, 1, -1, 9, 10, 127, 128, 255, 256, 32767, 65536, 2**31-1, 2**31, -2**31, -2**31-1, 2**32, 2**53, 2**53+1, -2**53-1,
             2**63-1, -2**63, 999999999, 1000000000, 123456789012345678, 9223372036854775807, 4294967295]
BIG = [2**63, -2**63-1, 2**64, 10**19, 10**25, -10**30, 3*10**100, 18446744073709551615]
REALS = ['0.1', '0.5', '1.5', '-0.1', '3.14159265358979', '0.30000000000000004', '1e1', '1E1', '1e+1', '1e-1', '1.0', '100.0', '-1.0', '0.0', '-0.0',
         '1e10', '1e22', '1e23', '1e100', '1e300', '1.7976931348623157e308', '2.2250738585072014e-308', '5e-324', '4.9e-324', '1e-310', '1e-7', '1E-5',
         '123456.789', '0.000001', '0.0000001', '9007199254740993.0', '9007199254740992.5', '1.0000000000000002', '8.41e21', '2.5e-8', '12345678901234567890.5',
         '0e0', '0E5', '0.0e-3', '1e0', '99999999999999990000.0', '5e-320', '179769313486231570000.0', '1e15', '1e16', '1e17', '123456789.123456789']

def gen_number(r):
    k = r.random()
    if k < .3: return str(r.randint(-20, 1000))
    if k < .5: return str(r.choice(INT_EDGES) * r.choice([1, 1, 1, -1])) if r.random() < .7 else str(r.randint(-2**63, 2**63 - 1))
    if k < .58: return str(r.choice(BIG)) if r.random() < .6 else str(r.randint(10**19, 10**(20 + r.randint(0, 200))))
    if k < .75: return r.choice(REALS)
    if k < .85: return repr(r.uniform(-1000, 1000))
    lit = r.choice(['', '-']) + r.choice(['0', str(r.randint(1, 9)), str(r.randint(10, 10**r.randint(2, 18)))])
    if r.random() < .6: lit += '.' + ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 3, 8, 16, 17, 25])))
    if r.random() < .6: lit += r.choice('eE') + r.choice(['', '+', '-']) + str(r.randint(0, r.choice([3, 20, 280])))
    if '.' not in lit and 'e' not in lit and 'E' not in lit: return lit
    if math.isinf(float(lit)): return '0.25'
    return lit

def gen_text(r, ascii_only=False):
    k = r.random()
    if k < .5: t = r.choice(WORDS)
    elif k < .7: t = ''.join(r.choice(WORDS) for _ in range(r.randint(1, 5)))
    elif k < .8: t = ''.join(chr(r.randint(32, 126)) for _ in range(r.choice([1, 3, 10, 44, 45, 46, 90])))
    elif k < .97 or ascii_only:
        t = ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789 ') for _ in range(r.randint(1, 20)))
        if r.random() < .02: t *= r.randint(2, 60)
    else:
        t = ''.join(chr(c) for c in (r.choice([r.randint(0, 0x2ff), r.randint(0, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff),
                                               r.randint(0xd800, 0xdfff)]) for _ in range(r.randint(1, 6))))
    if ascii_only: t = ''.join(c for c in t if ' ' <= c <= '~' and c not in '"\\')
    return fix_pairs(t)

def fix_pairs(t):
    """a lone high surrogate followed by a lone low one is one character"""
    return t.encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'surrogatepass') if any('\ud800' <= c <= '\udfff' for c in t) else t

def gen_keys(r, n, textfn):
    keys = []
    seen = set()
    while len(keys) < n:
        k = textfn(r)
        if r.random() < .3: k = k + str(r.randint(0, 99))
        k = fix_pairs(k)
        if k in seen:
            k = fix_pairs(k + 'k%d' % r.randint(0, 10**6))
            if k in seen: continue
        seen.add(k); keys.append(k)
    return keys

def gen_tree(r, depth=4, budget=None, textfn=gen_text, numfn=gen_number, top=True):
    if budget is None: budget = [r.choice([3, 8, 20, 40, 80])]
    budget[0] -= 1
    k = r.random()
    if depth > 0 and (k < .5 or (top and k < .93)) and budget[0] > 0:
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8]) if r.random() < .97 else r.randint(9, 40)
        n = min(n, max(budget[0], 0) + 1)
        if r.random() < .55:
            return ('o', [(key, gen_tree(r, depth - 1, budget, textfn, numfn, False)) for key in gen_keys(r, n, textfn)])
        return ('a', [gen_tree(r, depth - 1, budget, textfn, numfn, False) for _ in range(n)])
    k = r.random()
    if k < .4: return ('s', textfn(r))
    if k < .75: return ('n', numfn(r))
    return ('l', r.choice(['true', 'false', 'null']))

def deep_tree(r, depth):
    t = gen_tree(r, 1, [3])
    for i in range(depth):
        t = ('a', [t]) if r.random() < .5 else ('o', [(r.choice('abc'), t)])
    return t

def big_tree(r, j=None):
    """documents beyond the sizes a 16-bit count or a fixed buffer holds"""
    n = r.choice([5000, 33000, 66000, 70000])
    j = r.randrange(8) if j is None else j % 8
    if j == 0: return ('a', [('n', str(k)) for k in range(70000)])
    if j == 1:
        ks = list(range(n // 12)); r.shuffle(ks)     # reading an object takes time quadratic in its members
        return ('o', [('k%d' % k, ('n', str(k))) for k in ks])
    if j == 2: return ('s', 'x' * n + r.choice(['', 'y', 'é', '"']) + 'z' * r.randint(0, n))
    if j == 3: return ('o', [('x' * n + 'b', ('n', '1')), ('x' * n + 'a', ('a', [('n', '2')])), ('x', ('s', 'y' * n))])
    if j == 4: return ('a', [('s', r.choice('"\\\n\té€😀\x01') * n), ('l', 'true')])
    if j == 5: return ('a', [('n', r.choice(['', '-']) + '1' + ''.join(r.choice('0123456789') for _ in range(r.choice([50, 200, 300])))),
                             ('n', '0.' + ''.join(r.choice('0123456789') for _ in range(n))), ('n', '1' + '0' * 250 + '.' + '5' * n + 'e-200')])
    if j == 6: return ('a', [('a', [('o', [('a', ('s', 'v%d' % k))])]) if k % 3 else ('a', []) for k in range(n // 3)])
    return ('o', [('k%d' % k, ('a', [('s', 'w' * r.choice([0, 1, 255, 256, 257]))] * r.choice([0, 1, 2, 255, 256]))) for k in range(n // 100)])

SHORT = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
def u4(r, code):
    h = '%04x' % code
    k = r.random()
    return '\\u' + (h if k < .4 else h.upper() if k < .8 else ''.join(r.choice([c, c.upper()]) for c in h))

def ser_text(r, t, esc=0.08):
    """JSON text of a string, without quotes; esc: how often to escape what needs not to be"""
    if esc == 0: pass
    out = []
    for c in t:
        o = ord(c)
        if c in SHORT:
            out.append(SHORT[c] if r.random() < .75 or not esc else u4(r, o))
        elif o < 32 or 0xd800 <= o <= 0xdfff:
            out.append(u4(r, o))
        elif c == '/' and r.random() < .4 and esc:
            out.append('\\/')
        elif esc and r.random() < esc:
            if o > 0xffff:
                o -= 0x10000
                out.append(u4(r, 0xd800 + (o >> 10)) + u4(r, 0xdc00 + (o & 0x3ff)))
            else:
                out.append(u4(r, o))
        else:
            out.append(c)
    return ''.join(out)

WS = {'none': lambda r: '', 'some': lambda r: r.choice(['', '', ' ', '\n', '  ', '\t', '\r\n', ' \n ']),
      'lf': lambda r: r.choice(['', ' ', '\n', '\n    ']), 'heavy': lambda r: ''.join(r.choice(' \t\r\n') for _ in range(r.randint(0, 6)))}

def tokens(r, t, esc=0.08):
    """token list of a tree"""
    if t[0] == 'o':
        out = ['{']
        for i, (k, v) in enumerate(t[1]):
            if i: out.append(',')
            out += ['"' + ser_text(r, k, esc) + '"', ':']
            out += tokens(r, v, esc)
        return out + ['}']
    if t[0] == 'a':
        out = ['[']
        for i, v in enumerate(t[1]):
            if i: out.append(',')
            out += tokens(r, v, esc)
        return out + [']']
    if t[0] == 's': return ['"' + ser_text(r, t[1], esc) + '"']
    return [t[1]]

def join(r, toks, style=None):
    w = WS[style or r.choice(list(WS))]
    return w(r) + ''.join(x + w(r) for x in toks)

def serialise(r, t, style=None, esc=None):
    if esc is None: esc = r.choice([0, 0.03, 0.08, 0.5])
    return join(r, tokens(r, t, esc), style)

def enc(s):
    return s.encode('utf-8')

class Lit(str):
    """number literal as read"""

def _pairs(p):
    keys = [k for k, v in p]
    if len(set(keys)) != len(keys): raise ValueError('repeated key in output: %r' % sorted(k for k in keys if keys.count(k) > 1)[0])
    return ('o', p)
def _conv(v):
    if isinstance(v, tuple): return ('o', [(k, _conv(x)) for k, x in v[1]])
    if isinstance(v, list): return ('a', [_conv(x) for x in v])
    if isinstance(v, Lit): return ('n', str(v))
    if isinstance(v, str): return ('s', v)
    return ('l', {True: 'true', False: 'false', None: 'null'}[v])
def _noconst(x): raise ValueError('not JSON: ' + x)
_dec = json.JSONDecoder(object_pairs_hook=_pairs, parse_float=Lit, parse_int=Lit, parse_constant=_noconst)
def parse(text):
    """strict reading of one document; raises ValueError"""
    return _conv(_dec.decode(text))

def parse_many(text):
    """strict reading of concatenated documents"""
    out = []; i = 0
    while True:
        while i < len(text) and text[i] in ' \t\r\n': i += 1
        if i == len(text): return out
        v, i = _dec.raw_decode(text, i)
        out.append(_conv(v))

def is_int(lit): return not any(c in lit for c in '.eE')
def same_number(want, got):
    if is_int(want) and -2**63 <= int(want) < 2**63:
        return is_int(got) and int(want) == int(got)
    if not is_int(want) and is_int(got): return False
    a, b = float(want), float(got)
    return a == b and (is_int(want) or math.copysign(1, a) == math.copysign(1, b))

def diff(want, got, ordered=False, path='$'):
    """None, or the first difference; members compared by key unless ordered"""
    if want[0] != got[0]: return '%s: expected %r, got %r' % (path, short(want), short(got))
    if want[0] == 'o':
        if ordered and [k for k, _ in want[1]] != [k for k, _ in got[1]]:
            return '%s: members %r, got %r' % (path, [k for k, _ in want[1]], [k for k, _ in got[1]])
        w, g = dict(want[1]), dict(got[1])
        for k in w:
            if k not in g: return '%s: member %r lost' % (path, k)
        for k in g:
            if k not in w: return '%s: unexpected member %r' % (path, k)
        for k in w:
            d = diff(w[k], g[k], ordered, path + '.' + ascii(k))
            if d: return d
        return None
    if want[0] == 'a':
        if len(want[1]) != len(got[1]): return '%s: %d elements, got %d' % (path, len(want[1]), len(got[1]))
        for i, (a, b) in enumerate(zip(want[1], got[1])):
            d = diff(a, b, ordered, '%s[%d]' % (path, i))
            if d: return d
        return None
    if want[0] == 'n':
        return None if same_number(want[1], got[1]) else '%s: number %s became %s' % (path, want[1], got[1])
    return None if want[1] == got[1] else '%s: %r became %r' % (path, want[1], got[1])

def short(x, n=120):
    s = ascii(x)
    return s if len(s) < n else s[:n] + '...'

def size(t):
    if t[0] == 'o': return 1 + sum(size(v) for _, v in t[1])
    if t[0] == 'a': return 1 + sum(size(v) for v in t[1])
    return 1
def depth(t):
    if t[0] == 'o': return 1 + max([depth(v) for _, v in t[1]] or [0])
    if t[0] == 'a': return 1 + max([depth(v) for v in t[1]] or [0])
    return 1

def shrink_candidates(t):
    """smaller trees"""
    if t[0] in 'oa':
        items = t[1]
        for i in range(len(items)):
            yield items[i][1] if t[0] == 'o' else items[i]
        for i in range(len(items)):
            yield (t[0], items[:i] + items[i+1:])
        for i in range(len(items)):
            v = items[i][1] if t[0] == 'o' else items[i]
            for c in shrink_candidates(v):
                yield (t[0], items[:i] + [(items[i][0], c) if t[0] == 'o' else c] + items[i+1:])
    elif t[0] == 's' and t[1]:
        yield ('s', '')
        yield ('s', t[1][:len(t[1]) // 2]); yield ('s', t[1][len(t[1]) // 2:])

def count(t):
    """items of a tree"""
    return 1 + sum(count(x[1] if t[0] == 'o' else x) for x in (t[1] if t[0] in 'oa' else ()))
