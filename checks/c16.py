#!/usr/bin/env python3
"""C16: the diff marks exactly what differs."""
import os, sys, random, itertools, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import api

class Node:
    __slots__ = ('side', 'idx', 'kind', 'parent', 'op', 'known', 'eq', 'text', 'kids', 'sig')

def read(reply):
    sides = {'A': [], 'B': []}
    for l in reply.splitlines():
        f = l.split(' ')
        n = Node()
        n.side, n.idx, n.kind, n.parent, n.op, n.known, n.eq, n.text = f[0], int(f[1]), f[2], int(f[3]), f[4], f[5] == '1', int(f[6]), f[7]
        n.kids = []
        sides[n.side].append(n)
    for s in sides.values():
        for n in s:
            if n.parent >= 0: s[n.parent].kids.append(n)
        for n in reversed(s): # content: type, displayed text and members
            n.sig = (n.kind, n.text, tuple(k.sig for k in n.kids))
    return sides['A'], sides['B']

def ser(t, r=None): return jg.serialise(r or random.Random(1), t, 'none', 0)

@functools.lru_cache(1 << 17)
def distance(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1): q.append(min(p[j] + 1, q[-1] + 1, p[j-1] + (x != y)))
        p = q
    return p[-1]
def similar(a, b):
    a, b = api.unhex(a), api.unhex(b)
    if not a and not b: return True
    return 1 - distance(a, b) / max(len(a), len(b)) > 0.7
def borderline(a, b):
    a, b = api.unhex(a), api.unhex(b)
    return bool(a or b) and abs(1 - distance(a, b) / max(len(a), len(b)) - 0.7) < 1e-4

def newtree(r): return jg.gen_tree(r, 2, [6], top=False)
def mutate(r, t, n, newtree=newtree):
    """t with about n local changes"""
    for _ in range(n): t = mutate1(r, t, newtree)
    return t
def mutate1(r, t, newtree):
    if t[0] in 'oa' and t[1] and r.random() < .75: # go down
        i = r.randrange(len(t[1])); items = list(t[1])
        if t[0] == 'o': items[i] = (items[i][0], mutate1(r, items[i][1], newtree))
        else: items[i] = mutate1(r, items[i], newtree)
        return (t[0], items)
    k = r.random()
    if t[0] in 'oa' and k < .8:
        items = list(t[1]); k = r.random()
        new = newtree(r)
        if k < .3 or not items:
            items.insert(r.randint(0, len(items)), (r.choice(['new', 'extra%d' % r.randint(0, 99)]), new) if t[0] == 'o' else new)
        elif k < .55: del items[r.randrange(len(items))]
        elif k < .65: i = r.randrange(len(items)); items.insert(i, items.pop(r.randrange(len(items))))
        elif k < .75 and t[0] == 'a': items.insert(r.randrange(len(items)), r.choice(items))
        elif k < .85 and t[0] == 'o': i = r.randrange(len(items)); items[i] = (items[i][0] + r.choice(['x', '_', '2']), items[i][1])
        else:
            i = r.randrange(len(items))
            items[i] = (items[i][0], new) if t[0] == 'o' else new
        if t[0] == 'o':
            seen = set(); out = []
            for k, v in items:
                if k not in seen: seen.add(k); out.append((k, v))
            items = out
        return (t[0], items)
    if t[0] == 's' and k < .8:
        s = t[1]; i = r.randint(0, len(s))
        return ('s', jg.fix_pairs(s[:i] + r.choice(['x', 'Y', ' ', 'zz']) + s[i + r.choice([0, 1, 1]):]))
    if t[0] == 'n' and k < .5 and not any(c in t[1] for c in '.eE'): return r.choice([('n', t[1] + '1'), ('n', t[1] + '.0'), ('s', t[1])])
    if t[0] == 'l' and k < .6: return r.choice([('s', t[1]), ('l', 'true'), ('l', 'false'), ('l', 'null')])
    return newtree(r)

def large(r):
    """long texts and keys, long arrays and objects, deep documents: with one change, or few"""
    k = r.random()
    if k < .12: # nothing in common, or hardly anything
        n, m = r.choice([(255, 255), (256, 256), (257, 256), (300, 260), (256, 10), (40, 300), (511, 512)])
        x, y = [('n', str(i)) for i in range(n)], [('s', 'text%d' % i) for i in range(m)]
        for _ in range(r.choice([0, 0, 1, 2])): y[r.randrange(m)] = x[r.randrange(n)]
        return ('a', x), ('a', y)
    if k < .13: # more members than 16 bits can count
        n = r.choice([65535, 65536, 65537, 66000]); x = [('n', str(i % 10)) for i in range(n)]
        y = r.choice([[], [('n', '3')], [('s', 'text')], [('n', '1'), ('n', '1')], [('n', '5'), ('s', 'text')]])
        return r.choice([(('a', x), ('a', y)), (('a', y), ('a', x))])
    if k < .4:
        s = ''.join(r.choice('abcdefgh ABCé') for _ in range(r.choice([30, 130, 260, 700])))
        def change(s):
            i = r.choice([0, len(s) - 1, r.randrange(len(s))])
            return s[:i] + r.choice(['', s[i].swapcase() if s[i] != ' ' else '_', 'x', s[i] + s[i]]) + s[i+1:]
        t = change(s) if r.random() < .8 else s
        if r.random() < .5: return ('a', [('s', s), ('n', '1')]), ('a', [('s', t)] + [('n', '1')] * r.randint(0, 1))
        if t == s or r.random() < .5: return ('o', [(s, ('n', '1')), ('z', ('s', t))]), ('o', [(t, ('n', '1')), ('z', ('s', s))])
        return ('o', [(s, ('n', '1')), (t, ('n', '2'))]), ('o', [(s, ('n', '1')), (t, ('n', '3'))])
    if k < .8:
        n = r.choice([100, 127, 128, 129, 254, 255, 256, 257, 300])
        v = r.choice([lambda i: ('n', str(i)), lambda i: ('s', 'item %d' % (i % 7)), lambda i: ('a', [('n', str(i % 3))]), lambda i: ('o', [('id', ('n', str(i))), ('tag', ('s', 'same'))])])
        x = [v(i) for i in range(n)]; y = list(x)
        for _ in range(r.choice([0, 1, 2, 20, n // 2, n])):
            if y and r.random() < .6: y.pop(r.choice([0, -1, r.randrange(len(y))]))
            else: y.insert(r.choice([0, len(y), r.randrange(len(y) + 1)]), ('s', 'another'))
        if r.random() < .4: return ('o', [('key%d' % i, e) for i, e in enumerate(x)]), ('o', [('key%d' % i, e) for i, e in enumerate(y)])
        return ('a', x), ('a', y)
    n = r.choice([20, 100, 200]); at = r.randrange(n); kinds = [r.random() < .5 for _ in range(n)]
    def nest(change):
        t = ('n', '1')
        for i in range(n):
            t = ('a', [('s', 'x'), t]) if kinds[i] else ('o', [('k', t), ('other', ('l', 'true' if not change or i != at else 'false'))])
            if change and i == at and kinds[i]: t = ('a', t[1] + [('l', 'null')])
        return t
    return nest(False), nest(r.random() < .8)

SMALL = [('n', '1'), ('n', '2'), ('s', '1'), ('s', 'abcd'), ('s', 'abcdefghij'), ('s', 'abcdefghix'), ('l', 'true'), ('l', 'null'), ('n', '1.5'), ('a', []), ('o', []), ('a', [('n', '1')]), ('o', [('k', ('n', '1'))])]
def small_docs():
    """small documents, all pairs of which are compared"""
    out = [('a', list(x)) for n in range(3) for x in itertools.product(SMALL, repeat=n)]
    out += [('o', [(k, v) for k, v in zip(ks, vs)]) for n in (1, 2) for ks in itertools.combinations(['k', 'k2', 'other'], n) for vs in itertools.product([SMALL[i] for i in (0, 2, 9, 10, 11)], repeat=n)]
    out += [('a', [('a', [x, y])]) for x in SMALL[:4] for y in SMALL[:4]]
    out += [s for s in SMALL if s[0] not in 'oa']
    return out

class C16(CliCheck):
    prop = 'C16'
    rule = ('pairs of documents compared by the program, the operation and counterpart of every node checked; pairs of small documents (quick: sampled, thorough: all), random '
            'documents and their mutations (members added, removed, moved, renamed, replaced, types changed), unrelated documents, identical ones; non-trivial: the documents differ or have members')
    minimum = {'pairs': 3000, 'unmarked': 5000, 'modified': 1000, 'one_side': 2000, 'identical_documents': 300, 'flat': 200, 'same_type': 500, 'other_type': 500, 'nested_pairs': 500}
    chunk = 4
    BATCH = 40
    DOCS = small_docs()
    quick = 400
    @property
    def n_ex(self): return len(self.DOCS) if THOROUGH else 60
    @property
    def thorough(self): return self.n_ex + 12000
    def prepare(self): build.build('api_asan')
    def setup(self): self.api = api.Api(build.build('api_asan'), self.dir)
    def teardown(self):
        if getattr(self, 'api', None): self.api.close()
    def diff(self, flags, a, b):
        rep = self.api.call('diff', flags, a, b)
        if rep.startswith(('noroot', 'exception')): raise Violation('comparison', 'cannot compare: %s' % rep[:300], a=a, b=b, flags=flags)
        return rep
    def judge(self, flags, a, b, c):
        rep = self.diff(flags, a, b)
        A, B = read(rep)
        kw = dict(a=a, b=b, flags=flags, reply=rep[:6000])
        names = {'A': A, 'B': B}
        def show(n): return '%s node %d (%s %r)' % ('first' if n.side == 'A' else 'second', n.idx, n.kind, api.unhex(n.text)[:60])
        for side, other in ((A, B), (B, A)):
            owner = {}
            for n in side:
                if n.eq == -2: raise Violation('foreign', '%s is paired with something that is not in the other document' % show(n), **kw)
                if n.eq >= 0:
                    q = other[n.eq]
                    if q.eq != n.idx: raise Violation('symmetry', '%s is paired with %s, which is paired with %d' % (show(n), show(q), q.eq), **kw)
                    if n.eq in owner: raise Violation('one_to_one', '%s is paired twice' % show(q), **kw)
                    owner[n.eq] = n
                    if (n.parent < 0) != (q.parent < 0): raise Violation('nesting', '%s is paired with %s, of another level' % (show(n), show(q)), **kw)
                    if n.parent >= 0 and side[n.parent].eq != q.parent:
                        raise Violation('nesting', '%s is paired with %s, but their parents are not' % (show(n), show(q)), **kw)
                    if (n.kind in 'oa') != (q.kind in 'oa'): raise Violation('kinds', '%s is paired with %s: a container with a scalar' % (show(n), show(q)), **kw)
                    same = n.sig == q.sig
                    if n.parent >= 0: c['nested_pairs'] = c.get('nested_pairs', 0) + 1
                    if same and n.op != '=': raise Violation('marked', '%s is identical to its counterpart but marked %r' % (show(n), n.op), **kw)
                    if not same and n.op == '=': raise Violation('unmarked', '%s differs from its counterpart but is not marked' % show(n), **kw)
                    if n.op != q.op: raise Violation('mark', '%s is marked %r and its counterpart %r' % (show(n), n.op, q.op), **kw)
                    if not same and n.kind not in 'oa':
                        if n.kind == 'e': # a member of an object: its value says of what kind the difference is
                            if n.op != '!': raise Violation('type', '%s differs from its counterpart but is marked %r' % (show(n), n.op), **kw)
                        else:
                            alike = n.kind == q.kind or n.kind in 'id' and q.kind in 'id'
                            if n.op != ('!' if alike else '+'): raise Violation('type', '%s is paired with %s and marked %r' % (show(n), show(q), n.op), **kw)
                            c['same_type' if alike else 'other_type'] = c.get('same_type' if alike else 'other_type', 0) + 1
                    c['unmarked' if same else 'modified'] = c.get('unmarked' if same else 'modified', 0) + 1
                else:
                    if n.op != '+': raise Violation('one_side', '%s has no counterpart but is marked %r' % (show(n), n.op), **kw)
                    c['one_side'] = c.get('one_side', 0) + 1
                last = -1
                for k in n.kids:
                    if k.eq >= 0:
                        if k.eq <= last: raise Violation('order', 'the pairing of the members of %s is not in order' % show(n), **kw)
                        last = k.eq
        ra, rb = A[0], B[0]
        if ra.sig == rb.sig:
            c['identical_documents'] = c.get('identical_documents', 0) + 1
            for n in A:
                if n.eq != n.idx or n.op != '=': raise Violation('identical', 'identical documents, but %s is marked %r and paired with %d' % (show(n), n.op, n.eq), **kw)
        elif all(n.op == '=' for n in A + B): raise Violation('difference', 'different documents, and nothing is marked', **kw)
        if ra.kind in 'a' and rb.kind == 'a' and all(not n.kids and n.kind in 'sidbn' for n in A[1:] + B[1:]): self.flat(A, B, c, kw)
        c['pairs'] = c.get('pairs', 0) + 1
        return A, B, rep
    def flat(self, A, B, c, kw):
        """arrays of scalars: the pairing is a cheapest one"""
        a, b = A[1:], B[1:]
        if any(borderline(x.text, y.text) for x in a for y in b): return
        if not a and not b: return
        cost = lambda x, y: 0 if similar(x.text, y.text) else 1
        p = list(range(len(b) + 1))
        for i, x in enumerate(a, 1):
            q = [i]
            for j, y in enumerate(b, 1): q.append(min(p[j] + 1, q[-1] + 1, p[j-1] + cost(x, y)))
            p = q
        best = p[-1]
        if best == max(len(a), len(b)):
            if A[0].eq >= 0: raise Violation('cheapest', 'arrays with nothing in common are paired', **kw)
            return
        if A[0].eq < 0: raise Violation('cheapest', 'arrays at distance %d of at most %d are not paired' % (best, max(len(a), len(b))), **kw)
        pairs = [(x, B[x.eq]) for x in a if x.eq >= 0]
        # what is paired but of another type is not shown as paired by every version of the display: count pairs by position only
        got = sum(cost(x, y) for x, y in pairs) + len(a) + len(b) - 2 * len(pairs)
        if got != best: raise Violation('cheapest', '%d items are left apart, %d would do' % (got, best), **kw)
        c['flat'] = c.get('flat', 0) + 1
    def both(self, flags, a, b, c):
        A, B, rep = self.judge(flags, a, b, c)
        A2, B2, rep2 = self.judge(flags, b, a, c)
        if all(n.op == '=' for n in A + B) != all(n.op == '=' for n in A2 + B2):
            raise Violation('swap', 'swapping the documents changes whether there is a difference', a=a, b=b)
        return A, B, rep
    def case(self, i, r):
        if i < self.n_ex:
            c = {}
            x = ser(self.DOCS[i if THOROUGH else r.randrange(len(self.DOCS))]); n = 0
            for y in (self.DOCS if THOROUGH else r.sample(self.DOCS, 60)):
                self.judge('', x, ser(y), c); n += 1
            return Case('ex' + x, True, c, None, n)
        out = []
        for _ in range(self.BATCH):
            c = {}; k = r.random()
            num = lambda r: r.choice([str(r.randint(0, 99)), str(r.randint(0, 10**9)), '1.5', '0.25', '2.0', '-3'])
            txt = (lambda r: r.choice(['a', 'b', 'alpha', 'beta', 'gamma', 'some longer text', 'some longer test', '', 'true', '1'])) if r.random() < .6 else jg.gen_text
            if k < .15: # flat arrays
                pool = [('s', txt(r)) for _ in range(4)] + [('n', num(r)) for _ in range(3)] + [('l', 'true'), ('s', 'true')]
                a = ('a', [r.choice(pool) for _ in range(r.randint(0, 9))])
                b = ('a', [r.choice(pool) for _ in range(r.randint(0, 9))]) if r.random() < .4 else mutate(r, a, r.choice([1, 1, 2, 4]))
            else:
                a = jg.gen_tree(r, r.choice([2, 3, 4]), [r.choice([4, 10, 25])], txt, num)
                b = a if k < .25 else jg.gen_tree(r, 3, [15], txt, num) if k < .32 else mutate(r, a, r.choice([1, 1, 1, 2, 3, 6]))
            if k > .97: a, b = large(r)
            flags = r.choice(['', '', '--keep-order', '--ascii', '--ascii --keep-order', '-W'])
            ta, tb = (ser(a, r), ser(b, r)) if r.random() < .5 else (jg.serialise(r, a), jg.serialise(r, b))
            A, B, rep = self.both(flags, ta, tb, c)
            if r.random() < .2:
                if self.diff(flags, ta, tb) != rep: raise Violation('deterministic', 'a second comparison gives another result', a=ta, b=tb)
            if flags in ('', '-W') and len(ta) + len(tb) < 50000 and r.random() < .2: # order of members does not count when sorted
                def shuffle(t):
                    if t[0] == 'o': items = [(k, shuffle(v)) for k, v in t[1]]; r.shuffle(items); return ('o', items)
                    return ('a', [shuffle(v) for v in t[1]]) if t[0] == 'a' else t
                self.judge(flags, ser(a), ser(shuffle(a)), c); c['shuffled'] = 1
                X, Y = read(self.diff(flags, ser(a), ser(shuffle(a))))
                if any(n.op != '=' for n in X + Y): raise Violation('sorted', 'the same members in another order are marked as different', a=ser(a), flags=flags)
            out.append(Case(ta + '|' + tb, len(A) + len(B) > 2, c, {'a': ta[:200], 'b': tb[:200]}, 2))
        return out

if __name__ == '__main__': sys.exit(main(C16()))
