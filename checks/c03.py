#!/usr/bin/env python3
"""C03: members sorted by key, or in input order with --keep-order."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import layout

ALPHA = ['', 'a', 'A', 'b', 'B', 'aa', 'ab', 'a b', 'Z', 'z', '0', '1', '10', '2', '9', ' ', '!', '"', '#', '~', '[', '\\', '/', '\n', '\t', '\x7f', 'é', 'z\u0301',
         '\u00ff', '\u0100', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff', '\x00', '\x1f', 'a\x00', 'a"', 'a!', 'a\\', '-', '_', 'key', 'key1', 'key10', 'key2', 'Key']

def key_text(r):
    k = r.random()
    if k < .5: return r.choice(ALPHA)
    if k < .8: return r.choice(ALPHA) + r.choice(ALPHA)
    if k < .9: return r.choice('abcXYZ') * r.choice([1, 3, 15, 16, 17, 40]) + r.choice(ALPHA)
    return jg.gen_text(r)

def gen(r, depth, width):
    if depth > 0 and r.random() < .8:
        n = r.choice([0, 1, 2, 3, 5, 8, 13, width])
        if r.random() < .75:
            return ('o', [(k, gen(r, depth - 1, 5) if r.random() < .4 else ('n', str(j))) for j, k in enumerate(jg.gen_keys(r, n, key_text))])
        return ('a', [gen(r, depth - 1, 5) if r.random() < .5 else ('n', str(j)) for j in range(n)])
    return ('n', str(r.randint(0, 99)))

class C03(CliCheck):
    prop = 'C03'
    quick, thorough = 30000, 800000
    chunk = 100
    rule = ('random documents with many objects, keys chosen to share prefixes and to differ in case, length and encoding, in shuffled order; non-trivial: some '
            'object has at least two members given out of order')
    minimum = {'sorted_pairs': 20000, 'kept_pairs': 20000, 'unsorted_input': 5000}
    def check(self, t, text, opt):
        data = dict(input=text, options=opt)
        res = self.run(opt, text)
        clean(res, **data)
        out = decode(res.out, **data)
        try:
            got = jg.parse(out); raw, = layout.raw_docs(out)
        except ValueError as e: raise Violation('notjson', str(e), stdout=out, **data)
        keep = b'--keep-order' in opt
        d = jg.diff(t, got, keep)
        if d: raise Violation('kept' if keep else 'members', d, stdout=out, **data)
        c = {'sorted_pairs': 0, 'kept_pairs': 0}
        todo = [raw]
        while todo:
            x = todo.pop()
            if x[0] == 'a': todo += x[1]
            elif x[0] == 'o':
                todo += [v for _, v in x[1]]
                ks = [k[1:-1].replace('\\"', '"') if '\\\\' not in k else unq(k[1:-1]) for k, _ in x[1]]
                if keep: c['kept_pairs'] += max(0, len(ks) - 1); continue
                for a, b in zip(ks, ks[1:]):
                    c['sorted_pairs'] += 1
                    if not a.encode('utf-8') < b.encode('utf-8'):
                        raise Violation('order', 'key %s is written before %s' % (ascii(a), ascii(b)), stdout=out, **data)
        return c
    def case(self, i, r):
        t = gen(r, r.choice([1, 2, 3, 4]), r.choice([20, 40, 100]))
        opt = opts(r, p=.25)
        if r.random() < .4 and b'--keep-order' not in opt: opt.append(b'--keep-order')
        if i % 50 == 0: t = jg.deep_tree(r, r.choice([20, 200]))
        if i % 25 == 1: # several members on every level
            for _ in range(r.choice([6, 10, 20, 40, 120])):
                ks = jg.gen_keys(r, r.choice([1, 2, 2, 3, 5]), key_text)
                j = r.randrange(len(ks))
                t = ('o', [(k, t if k == ks[j] else ('n', str(m))) for m, k in enumerate(ks)])
                if r.random() < .3: t = ('a', [('n', '0'), t])
        if i % 3000 == 1499:
            t = jg.big_tree(r, r.choice([1, 3, 7]))
        seed = r.random()
        text = jg.serialise(random.Random(seed), t)
        try: c = self.check(t, text, opt)
        except Violation as v:
            if jg.depth(t) > 40 or len(text) > 50000: raise
            def fails(x):
                try: self.check(x, jg.serialise(random.Random(seed), x), opt)
                except Violation as w: return w
            raise minimise(t, fails)[1] or v
        uns = int(unsorted(t))
        c['unsorted_input'] = uns; c['max_depth'] = jg.depth(t)
        return Case(text + repr(opt), bool(uns), c, {'input': text[:300], 'options': opt})

def unq(s):
    out = []; i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append('"' if s[i+1] == '"' else s[i:i+2]); i += 2
        else: out.append(s[i]); i += 1
    return ''.join(out)

def unsorted(t):
    if t[0] == 'o':
        ks = [k for k, _ in t[1]]
        return ks != sorted(ks) or any(unsorted(v) for _, v in t[1])
    return t[0] == 'a' and any(unsorted(v) for v in t[1])

if __name__ == '__main__': sys.exit(main(C03()))
