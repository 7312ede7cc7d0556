#!/usr/bin/env python3
"""C19: the history buffer holds exactly the last characters written."""
import os, sys, random, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import api

class Model:
    def __init__(self, cap): self.cap, self.buf, self.total = cap, [], 0
    def put(self, c):
        self.buf.append(c); self.total += 1
        if len(self.buf) > self.cap: del self.buf[0]
    def pop(self):
        if self.buf: self.buf.pop(); self.total -= 1
    def reset(self): self.buf, self.total = [], 0
    def state(self): return (len(self.buf), self.total, bytes(self.buf))

class Linear(Model):
    """line ends are not kept; the buffer restarts at the first character after one"""
    def __init__(self): Model.__init__(self, 45); self.pending = self.cr = False; self.line = 1
    def put(self, c):
        if self.cr and c == 10: self.cr = False; return
        self.cr = c == 13
        if self.pending: self.reset(); self.line += 1; self.pending = False
        if c in (10, 13): self.pending = True
        else: Model.put(self, c)
    def pop(self):
        if self.pending: self.pending = self.cr = False
        else: Model.pop(self)
    def state(self): return Model.state(self) + (self.line,)

CAPS = [1, 2, 3, 4, 7, 10, 45, 100]
class C19(CliCheck):
    prop = 'C19'
    rule = ('operation sequences on buffers of capacity 1, 2, 3, 4, 7, 10, 45 and 100 and on the line-aware history, compared with a list after every operation: every sequence of up '
            'to 6 (thorough: 7) operations over {append 1, append 2, capacity, capacity+1, more than twice the capacity, remove, reset} for small capacities, and random ones; '
            'non-trivial: at least one append')
    minimum = {'operations': 100000, 'wrapped': 10000, 'linear': 1000, 'removals': 5000, 'max_batch': 33000, 'many': 5}
    chunk = 2
    BATCH = 60
    EXL = property(lambda self: 7 if THOROUGH else 6)
    EXC = [1, 2, 3, 4]
    @property
    def n_ex(self): return len(self.EXC) * 49
    @property
    def quick(self): return self.n_ex + 120
    @property
    def thorough(self): return self.n_ex + 6000
    def prepare(self): build.build('api_asan')
    def setup(self): self.api = api.Api(build.build('api_asan'), self.dir)
    def teardown(self):
        if getattr(self, 'api', None): self.api.close()
    def judge(self, cap, ops, c):
        m = Linear() if cap == 'L' else Model(cap)
        text = []; want = []
        for o in ops:
            if o[0] == 'p': text.append('p %d' % o[1]); m.put(o[1])
            elif o[0] == 'b':
                text.append('b %d %s' % (len(o[1]), ' '.join(map(str, o[1]))))
                for x in o[1]: m.put(x)
                c['max_batch'] = max(c.get('max_batch', 0), len(o[1]))
            elif o[0] == 'o': text.append('o'); m.pop(); c['removals'] = c.get('removals', 0) + 1
            else: text.append('r'); m.reset()
            want.append(m.state())
        got = self.api.call('history', cap, '\n'.join(text)).splitlines()
        if len(got) != len(want): raise Violation('harness', 'expected %d states, got %r' % (len(want), got[:3]), capacity=cap, operations=text)
        for j, (g, w) in enumerate(zip(got, want)):
            f = g.split(' ')
            s = (int(f[0]), int(f[1]), api.unhex(f[2])) + ((int(f[3]),) if cap == 'L' else ())
            if s != w:
                names = ('size', 'total count', 'content', 'line')
                bad = next(n for n, a, b in zip(names, s, w) if a != b)
                raise Violation(bad.replace(' ', '_'), 'after operation %d (%s) on a buffer of %s: %s is %r, expected %r' % (j, text[j][:60], cap, bad, s[names.index(bad)], w[names.index(bad)]),
                                capacity=cap, operations=text[:j+1], got=s, expected=w)
        c['operations'] = c.get('operations', 0) + len(ops)
        c['linear' if cap == 'L' else 'wrapped'] = c.get('linear' if cap == 'L' else 'wrapped', 0) + 1
        return any(o[0] in 'pb' for o in ops)
    def case(self, i, r):
        out = []
        if i < self.n_ex: # exhaustive: capacity, first two operations
            cap = self.EXC[i // 49]; a, b = divmod(i % 49, 7)
            def op(k, n):
                ch = lambda m: [97 + (n * 5 + q) % 26 for q in range(m)]
                return [('p', ch(1)[0]), ('b', ch(2)), ('b', ch(cap)), ('b', ch(cap + 1)), ('b', ch(2 * cap + 1)), ('o',), ('r',)][k]
            c = {}; n = 0
            # all sequences of the longest length: their prefixes are checked along
            for seq in itertools.product(range(7), repeat=self.EXL - 2):
                self.judge(cap, [op(k, j) for j, k in enumerate((a, b) + seq)], c); n += 1
            return Case('ex%d-%d-%d' % (cap, a, b), True, c, None, n)
        for _ in range(self.BATCH):
            cap = r.choice(CAPS + ['L', 'L', 'L', 'L']); c = {}
            ops = []; n = r.choice([5, 20, 60, 200]); cc = 45 if cap == 'L' else cap
            pr = r.choice([.1, .3, .6])
            for _ in range(n):
                k = r.random()
                ch = (lambda: r.choice([97, 98, 99, 100, 101, 32, 10, 13, 10, 13])) if cap == 'L' and r.random() < .5 else lambda: r.randint(97, 122)
                if k < pr:
                    for _ in range(r.choice([1, 1, 1, 2, cc, cc + 1])): ops.append(('o',))
                elif k < pr + .03 and cap != 'L': ops.append(('r',))
                elif k < .8: ops.append(('p', ch()))
                else: ops.append(('b', [ch() for _ in range(r.choice([0, 1, 2, 3, cc - 1, cc, cc + 1, 2 * cc, 2 * cc + 1, r.randint(0, 3 * cc)]))]))
                if len(ops) > 600: break
            if r.random() < .006: # many more than any small counter holds: characters on a line, or lines
                m = r.choice([33000, 66000, 70000]); x = [ch() if r.random() < .001 else 98 for _ in range(m)] if cap != 'L' or r.random() < .5 else [10] * m
                ops[r.randint(0, len(ops)):] = [('b', x)] + ops[-20:]; c['many'] = 1
            if cap == 'L' and r.random() < .1: ops.insert(0, ('b', [10] * 200))
            nt = self.judge(cap, ops, c)
            out.append(Case(repr((cap, ops)), nt, c, {'capacity': cap, 'operations': repr(ops[:20])}, len(ops)))
        return out

if __name__ == '__main__': sys.exit(main(C19()))
