#!/usr/bin/env python3
"""C01: redirected output denotes the same JSON value as the input."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *

class C01(CliCheck):
    prop = 'C01'
    quick, thorough = 60000, 1500000
    chunk = 100
    rule = ('random well-formed documents (nested objects and arrays, texts with every kind of escape, edge and random numbers, '
            'whitespace styles) and random options, plus one number sweep in 4; non-trivial: more than one node')
    assumptions = ['reference reading: Python json (strict), doubles compared as nearest IEEE double', 'documents up to 400 levels and about half a megabyte']
    minimum = {'strings': 5000, 'numbers': 5000, 'escapes': 1000, 'nested': 1000}
    def check(self, t, text, opt, src):
        data = dict(input=text, options=opt, source=src)
        if src == 'args' and '\0' not in text and len(text) < 100000: res = self.run(opt + [b'--', text.encode('utf-8')])
        else: res = self.run(opt, text)
        clean(res, **data)
        out = decode(res.out, **data)
        try: got = jg.parse(out)
        except ValueError as e: raise Violation('notjson', 'output is not JSON: %s' % e, stdout=out, **data)
        d = jg.diff(t, got)
        if d: raise Violation('value', d, stdout=out, **data)
    def case(self, i, r):
        k = i % 8
        if i % 3000 == 1499: # sizes
            t = jg.big_tree(r, i // 3000)
        elif k == 0: # numbers
            t = ('a', [('n', jg.gen_number(r)) for _ in range(r.randint(1, 30))])
        elif k == 1: # texts
            t = ('a', [('s', jg.gen_text(r)) for _ in range(r.randint(1, 12))])
            if r.random() < .5: t = ('o', [(kk, v) for kk, v in zip(jg.gen_keys(r, len(t[1]), jg.gen_text), t[1])])
        elif k == 2 and i % 5 == 0:
            t = jg.deep_tree(r, r.choice([5, 20, 60, 100, 250, 400]))
        else:
            t = jg.gen_tree(r, r.choice([1, 2, 3, 4, 6]))
        opt = opts(r); src = r.choice(['stdin', 'stdin', 'args'])
        seed = r.random(); text = jg.serialise(random.Random(seed), t)
        try: self.check(t, text, opt, src)
        except Violation as v:
            if jg.depth(t) > 40 or len(text) > 50000: raise
            def fails(c):
                try: self.check(c, jg.serialise(random.Random(seed), c), opt, src)
                except Violation as w: return w
            t2, best = minimise(t, fails)
            raise best or v
        c = {'big_documents': int(len(text) > 60000), 'strings': text.count('"') // 2, 'escapes': text.count('\\'), 'nested': int(jg.depth(t) > 2), 'max_depth': jg.depth(t), 'bytes': len(text),
             'numbers': sum(1 for x in walk(t) if x[0] == 'n'), 'nodes': jg.size(t)}
        return Case(text + repr(opt), jg.size(t) > 1, c, {'input': text[:400], 'options': opt})

def walk(t):
    yield t
    if t[0] in 'oa':
        for x in t[1]:
            yield from walk(x[1] if t[0] == 'o' else x)

if __name__ == '__main__': sys.exit(main(C01()))
