"""Shared by the checks of the viewer: documents, sessions, random walks."""
import os, random
from common import *
import viewer, ui, jsongen as jg

WORDS = ['a', 'b', 'c', 'id', 'name', 'value', 'key', 'list', 'foo', 'bar', 'Foo', 'BAR', 'hello world', 'some text', 'true', 'null', '1', '12', 'x y z', 'a/b', 'it\'s', '"quoted"', 'back\\slash',
         'tab\there', 'line\nfeed', '%s', '%d%n', '{', '}', '[', '{ }', ': ', '', ' ', '--', '++', 'zz', 'q', '~', '`']
NUMS = ['0', '1', '2', '12', '-5', '1.5', '0.25', '-3.75', '123456789', '1e+100', '100', '2147483648', '-9223372036854775808']

def text(r, w):
    k = r.random()
    if getattr(r, 'uni', False) and r.random() < .4: return wide(r, w)
    if getattr(r, 'spelt', False) and r.random() < .3: return ''.join(r.choice(SPELT) if r.random() < .5 else r.choice('abAB 1') for _ in range(r.choice([1, 2, 3, 6])))
    if k < .6: return r.choice(WORDS)
    if k < .8: return ' '.join(r.choice(WORDS) for _ in range(r.randint(2, 4)))
    if k < .86: return ''.join(chr(r.randint(32, 126)) for _ in range(r.choice([1, 3, 8, 20])))
    n = r.choice([w, w, 2 * w, 3 * w]) - r.choice([0, 1, 2, 4, 5, 6, 7, 8, 10]) + r.choice([0, 0, 1, 2, 3])
    return ''.join(r.choice('abcdefghij klmnop 0123456789') for _ in range(max(1, min(n, 400))))

SPELT = [chr(0xe000 + ord(c)) for c in 'aAb1é"\\/\n ÿ\x7f']
def wide(r, w):
    """text beyond ASCII, of one cell a character"""
    k = r.random()
    n = r.choice([1, 1, 2, 3, 5, 8, 12]) if k < .7 else max(1, min(r.choice([w, w, 2 * w, 3 * w]) - r.choice([0, 1, 2, 4, 5, 6, 7, 8, 10]) + r.choice([0, 0, 1, 2, 3]), 400))
    few = r.sample(ui.WIDE, 3); p = r.choice([.1, .5, 1])
    return ''.join(r.choice(few) if r.random() < p else r.choice('abcdefghi klmno 0123456789') for _ in range(n))

def alphabet(r, ascii):
    """what the texts of this case are made of"""
    r.uni = not ascii and r.random() < .3
    r.spelt = ascii and r.random() < .5

def write_doc(path, r, t, ascii):
    with open(path, 'wb') as f: f.write(jg.serialise(r, t, None, 0 if ascii else None).translate(ui.SPELT if ascii else {}).encode('utf-8'))

def doc(r, w, n=None, maxdepth=None):
    """a document that fits: its indentation leaves room on w columns"""
    depth = max(1, min((w - 8) // 6, r.choice([1, 2, 3, 4, 6]) if maxdepth is None else maxdepth))
    if w > 80 and maxdepth is None and r.random() < .5: return nested_doc(r, w)
    if n is None and maxdepth is None and r.random() < .03: return long_doc(r, w, depth)
    n = n or r.choice([1, 3, 6, 12, 12, 25, 40, 60])
    wl = w if r.random() < .5 else 10
    best = None
    for _ in range(8):
        t = jg.gen_tree(r, depth, [n], lambda r: text(r, wl), lambda r: r.choice(NUMS), top=r.random() < .95)
        k = jg.count(t)
        if best is None or k > best[0]: best = k, t
        if k >= n * .6: break
    return one_empty(best[1], [False])

def nested_doc(r, w):
    """many levels, on a wide screen"""
    t = jg.gen_tree(r, 1, [4], lambda r: text(r, 10), lambda r: r.choice(NUMS))
    for _ in range(r.randint(1, max(1, (w - 14) // 6))):
        more = [jg.gen_tree(r, 0, [1], lambda r: text(r, 10), lambda r: r.choice(NUMS), top=False) for _ in range(r.choice([0, 0, 1, 2]))]
        at = r.randint(0, len(more)); more.insert(at, t)
        t = ('a', more) if r.random() < .5 else ('o', [('k%d' % j, v) for j, v in enumerate(more)])
    return one_empty(t, [False])

def long_doc(r, w, depth):
    """hundreds of items: more than a byte counts"""
    n = r.choice([270, 300, 400, 700]); kids = []
    while n > 0:
        t = jg.gen_tree(r, depth - 1, [r.choice([1, 1, 1, 3, 12])], lambda r: text(r, 10), lambda r: r.choice(NUMS), top=r.random() < .4)
        kids.append(t); n -= jg.count(t)
    if r.random() < .5: t = ('a', kids)
    else: t = ('o', [('k%d' % j, k) for j, k in enumerate(kids)])
    return one_empty(t, [False])

def one_empty(t, had):
    """at most one empty string stands alone on a line: nothing of it can be highlighted, two of them would look the same"""
    if t[0] == 'a': return ('a', [one_empty(x, had) for x in t[1]])
    if t[0] == 'o': return ('o', [(k, v if v == ('s', '') else one_empty(v, had)) for k, v in t[1]])
    if t == ('s', ''):
        if had[0]: return ('s', 'e')
        had[0] = True
    return t

def names(r, dir, k):
    n = ['doc%d.json' % k, 'd%d' % k, 'a rather long file name, number %d.json' % k, 'x' * r.choice([18, 30, 79, 80, 100]) + str(k)]
    if getattr(r, 'uni', False): n += [wide(r, 20)[:60] + str(k), 'é' * r.choice([1, 8, 30, 80]) + 'x%d' % k, 'données%d.json' % k]
    return os.path.join(dir, r.choice(n))

class UiCheck(CliCheck):
    variant = 'ui'
    chunk = 1
    def setup(self):
        self.exe = build.build(self.variant)
        self.nfile = 0
    def teardown(self): pass
    def session(self, r, docs, rows, cols, args=(), c=None, keep=False, ascii=False, color=True, term='linux', split=False, pos=None, tiny=None):
        """docs: trees; written to files"""
        paths = []
        for k, t in enumerate(docs):
            p = names(r, self.dir, k)
            while p in paths: p += 'x'
            write_doc(p, r, t, ascii)
            paths.append(p)
        a = list(args)
        if keep: a.append('--keep-order')
        if ascii: a.append('--ascii')
        if not color: a.append('--color=never')
        r.shuffle(a)
        err = os.path.join(self.dir, 'err')
        # run where the files are: names are relative, hence short
        rel = [os.path.basename(p) for p in paths]
        return viewer.Session(self.exe, a + rel, list(zip(rel, docs)), rows, cols, keep, ascii, color, term, self.dir, err, c=c, tiny=tiny)

MOVES = ['DOWN', 'j', 'UP', 'k', 'LEFT', 'h', 'RIGHT', 'l', 'PPAGE', 'NPAGE']
def size(r):
    if r.random() < .02: return r.choice([(20, 270), (270, 40), (130, 260), (8, 520)])   # more than a byte counts
    return r.choice([(24, 80), (24, 80), (10, 40), (6, 30), (4, 20), (5, 80), (40, 100), (12, 25), (3, 40), (50, 132), (r.randint(3, 30), r.randint(16, 120))])

def tiny(r, p):
    """a terminal where nothing fits, or none"""
    if r.random() >= p: return None
    return r.choice([(1, 1), (1, 80), (2, 80), (24, 1), (24, 2), (24, 3), (r.randint(1, 3), r.randint(1, 10)), (r.randint(1, 24), r.randint(1, 5))])

def fitted(r, docs, w0, rows=None, cols=None, half=lambda w: w):
    """a size; often one where a text of the document, folded or not, ends exactly at the edge or beside it"""
    if rows is None: rows, cols = size(r); cols = max(cols, w0)
    if r.random() < .6: return rows, cols
    lens, deepest = set(), 0
    for t in docs:
        for s, x, parts in ui.Doc(t, True).lines():
            deepest = max(deepest, x)
            n = x + sum(len(p) for p, _ in parts)
            lens.add(n)
            if s.container() and s.kids and parts[-1][0] not in '}]': lens.add(n + (7 if parts[0][1] == 'k' else 6))   # folded
    if r.random() < .3:  # a screen that the document fills, to a row
        rows = max(3, min(60, sum(max(1, -(-(x + sum(len(p) for p, _ in parts)) // cols)) for s, x, parts in ui.Doc(docs[0], True).lines()) + r.choice([0, 1, 1, 2])))
    w = [v for n in lens for k in (1, 1, 1, 2, 3) for v in (n // k, n // k + 1, n // k, n // k - 1) if max(8, deepest + 1) <= v <= 140]
    return (rows, half(r.choice(w))) if w else (rows, cols)

def walk(s, r, n, moves=None, other=0.0):
    """random walk with runs of the same key"""
    if getattr(s, 'doc', None) and len(s.doc.items) > 250 and r.random() < .2:    # far away
        for _ in range(r.choice([260, 300])): s.press('j')
        s.count('far')
    while n > 0:
        k = r.choice(moves or MOVES); m = r.choice([1, 1, 1, 2, 3, 8, 20])
        if r.random() < other:
            k = r.choice(['x', ' ', 'F1', 'HOME', 'DC', 'z', '0', '\x80', '?', 'BACKSPACE' if 0 else 'g']); m = 1
        for _ in range(min(m, n)): s.press(k); n -= 1

def position(s, r, n):
    """fold some containers and go somewhere"""
    for _ in range(n):
        for _ in range(r.choice([0, 1, 2, 5])): s.press(r.choice(['j', 'NPAGE', 'DOWN']))
        s.press(r.choice(['h', 'h', 'LEFT', 'l', 'PPAGE']))
