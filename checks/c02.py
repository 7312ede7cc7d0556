#!/usr/bin/env python3
"""C02: layout of redirected output, and its stability."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import layout

class C02(CliCheck):
    prop = 'C02'
    quick, thorough = 30000, 800000
    chunk = 100
    rule = ('random well-formed documents and options; the output is read as raw tokens, rendered again by the layout rules and compared byte for byte, '
            'then fed back to the program; non-trivial: more than one line of output, or --compress with more than one token')
    assumptions = ['documents up to 400 levels and about half a megabyte']
    minimum = {'pretty': 2000, 'compressed': 2000, 'empty_containers': 500, 'nested_in_key': 500}
    def check(self, texts, opt):
        data = dict(inputs=texts, options=opt)
        if len(texts) == 1: res = self.run(opt, texts[0])
        else:
            d = self.dir; files = []
            for j, t in enumerate(texts):
                p = os.path.join(d, '%d.json' % j)
                with open(p, 'wb') as f: f.write(t.encode('utf-8'))
                files.append(p)
            res = self.run(opt + files)
        clean(res, **data)
        out = decode(res.out, **data)
        try: docs = layout.raw_docs(out)
        except ValueError as e: raise Violation('notjson', str(e), stdout=out, **data)
        if len(docs) != len(texts): raise Violation('docs', '%d documents written for %d inputs' % (len(docs), len(texts)), stdout=out, **data)
        compress = b'--compress' in opt
        want = ''.join(layout.render(d, compress) for d in docs)
        if want != out:
            p = next((i for i, (a, b) in enumerate(zip(want, out)) if a != b), min(len(want), len(out)))
            raise Violation('layout', 'layout rules give %s, program wrote %s' % (ascii(want[max(0, p-30):p+30]), ascii(out[max(0, p-30):p+30])), stdout=out, **data)
        if len(texts) == 1:
            again = self.run(opt, res.out)
            clean(again, fed_back=out, **data)
            if again.out != res.out: raise Violation('idempotence', 'output fed back gives another output', stdout=out, second=again.out, **data)
        return docs, out
    def tree(self, r, nd):
        while True: # scalars of several inputs would not be told apart when compressed
            t = jg.gen_tree(r, r.choice([1, 2, 3, 5]))
            if nd == 1 or t[0] in 'oa': return t
    def case(self, i, r):
        nd = 1 if i % 10 else r.randint(2, 4)
        trees = [jg.deep_tree(r, r.choice([5, 50, 150, 400])) if i % 40 == 7 else self.tree(r, nd) for _ in range(nd)]
        if i % 2000 == 999: nd = 1; trees = [jg.big_tree(r, i // 2000)]
        opt = opts(r)
        if r.random() < .3 and b'--compress' not in opt: opt.append(b'--compress')
        seed = r.random()
        texts = [jg.serialise(random.Random(seed), t) for t in trees]
        try: docs, out = self.check(texts, opt)
        except Violation as v:
            if nd > 1 or jg.depth(trees[0]) > 40 or len(texts[0]) > 50000: raise
            def fails(c):
                try: self.check([jg.serialise(random.Random(seed), c)], opt)
                except Violation as w: return w
            raise minimise(trees[0], fails)[1] or v
        c = {'compressed' if b'--compress' in opt else 'pretty': 1, 'big_documents': int(len(out) > 60000), 'lines': out.count('\n'), 'max_depth': max(jg.depth(t) for t in trees)}
        def count(t):
            if t[0] in 'oa':
                if not t[1]: c['empty_containers'] = c.get('empty_containers', 0) + 1
                for x in t[1]:
                    if t[0] == 'o' and x[1][0] in 'oa': c['nested_in_key'] = c.get('nested_in_key', 0) + 1
                    count(x[1] if t[0] == 'o' else x)
        for t in trees: count(t)
        return Case(repr(texts) + repr(opt), sum(jg.size(t) for t in trees) > 1, c, {'inputs': [t[:300] for t in texts], 'options': opt})

if __name__ == '__main__': sys.exit(main(C02()))
