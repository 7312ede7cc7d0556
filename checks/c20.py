#!/usr/bin/env python3
"""C20: text similarity is the edit distance."""
import os, sys, random, itertools, struct, resource
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import api

def distance(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1): q.append(min(p[j] + 1, q[-1] + 1, p[j-1] + (x != y)))
        p = q
    return p[-1]
def f32(x): return struct.unpack('f', struct.pack('f', x))[0]

def edit(r, s, n):
    s = bytearray(s)
    for _ in range(n):
        k = r.random(); i = r.randint(0, len(s))
        if k < .33: s.insert(i, r.choice(b'abcxyz \xc3\xa9\x00'))
        elif s and k < .66: del s[min(i, len(s) - 1)]
        elif s: s[min(i, len(s) - 1)] = r.choice(b'abcxyz')
    return bytes(s)

SMALL = [bytes(x) for n in range(5) for x in itertools.product(b'ab', repeat=n)] + [bytes(x) for n in range(1, 4) for x in itertools.product(b'abc', repeat=n)]
class C20(CliCheck):
    prop = 'C20'
    rule = ('pairs of texts: all pairs of short texts over two and three letters, random texts and edited copies up to 300 bytes (thorough: longer), any bytes; distance compared with an '
            'independent computation, ratio with one minus distance over length; symmetry and triangle inequality on the values returned; non-trivial: texts that differ')
    minimum = {'pairs': 10000, 'equal': 200, 'triangles': 2000, 'max_length': 250, 'long_pairs': 5, 'max_long': 17000}
    chunk = 4
    @property
    def n_ex(self): return len(SMALL)
    @property
    def quick(self): return self.n_ex + 300
    @property
    def thorough(self): return self.n_ex + 20000
    def prepare(self): build.build('api_asan'); build.build('api')
    def setup(self): self.api = api.Api(build.build('api_asan'), self.dir)
    def teardown(self):
        if getattr(self, 'api', None): self.api.close()
    def ask(self, pairs, c):
        got = self.api.call('distance', *[x for p in pairs for x in p]).splitlines()
        if len(got) != len(pairs): raise Violation('harness', 'answers missing: %r' % got[:3])
        res = []
        for (a, b), l in zip(pairs, got):
            d, p = l.split(' '); d = int(d); p = float.fromhex(p)
            w = distance(a, b); m = max(len(a), len(b))
            kw = dict(a=a, b=b)
            if d != w: raise Violation('distance', 'distance %d, expected %d' % (d, w), **kw)
            wp = f32(1 - w / m) if m else 1.0
            if abs(p - wp) > 1e-6: raise Violation('ratio', 'similarity %r, expected %r' % (p, wp), **kw)
            if not 0 <= p <= 1: raise Violation('ratio', 'similarity %r' % p, **kw)
            if (p == 1) != (a == b) or (d == 0) != (a == b): raise Violation('equal', 'distance %d and similarity %r' % (d, p), **kw)
            c['pairs'] = c.get('pairs', 0) + 1; c['equal'] = c.get('equal', 0) + (a == b); c['max_length'] = max(c.get('max_length', 0), m)
            res.append(d)
        return res
    # long texts (as documents contain), whose distance is known from how they are made; memory must not grow with the product of their lengths
    def long_case(self, r):
        n = r.choice([18000, 20000, 22000]); k = r.choice([0, 1, 3, 50])
        body = bytes(r.choice(b'abcdef') for _ in range(n))
        pos = sorted(r.sample(range(n), k))
        kind = r.choice(['insert', 'replace', 'other'])
        if kind == 'other': other = bytes(r.choice(b'xyz') for _ in range(n - k * 100)); d = n
        else:
            out = []; last = 0
            for x in pos: out += [body[last:x], b'Z']; last = x + (kind == 'replace')
            other = b''.join(out) + body[last:]; d = k
        if r.random() < .5: body, other = other, body
        a = api.Api(build.build('api'), self.dir, name='long')
        try:
            a.start(); resource.prlimit(a.p.pid, resource.RLIMIT_AS, (1 << 30, 1 << 30))
            try: got = a.call('distance', body, other).split(' ')
            except Violation as v: raise Violation('long-' + v.key, 'two texts of %d and %d bytes, with 1 GB of memory: %s' % (len(body), len(other), v.detail[:200]), kind=kind, k=k, n=n)
        finally: a.close()
        if got[0] == 'exception': raise Violation('long-exception', 'two texts of %d and %d bytes, with 1 GB of memory: %s' % (len(body), len(other), ' '.join(got)[:200]), kind=kind, k=k, n=n)
        if int(got[0]) != d: raise Violation('distance', 'distance %s of two long texts, expected %d' % (got[0], d), kind=kind, k=k, n=n)
        if abs(float.fromhex(got[1].strip()) - f32(1 - d / max(len(body), len(other)))) > 1e-6: raise Violation('ratio', 'similarity %s of two long texts' % got[1], kind=kind, k=k, n=n)
        return Case((kind, n, pos), d > 0, {'long_pairs': 1, 'max_long': len(body)}, None, 1)
    def case(self, i, r):
        c = {}
        if i >= self.n_ex and (i - self.n_ex) % 50 == 7: return self.long_case(r)
        if i < self.n_ex:
            a = SMALL[i]
            self.ask([(a, b) for b in SMALL], c)
            return Case(b'ex' + a, True, c, None, len(SMALL))
        out = []
        for _ in range(12):
            c = {}
            n = r.choice([0, 1, 5, 20, 60, 300]) if not THOROUGH else r.choice([0, 1, 5, 20, 60, 300, 1000])
            al = r.choice([b'ab', b'abcdefgh ', bytes(range(256))])
            x = bytes(r.choice(al) for _ in range(n))
            y = edit(r, x, r.choice([0, 1, 2, 5, n // 2]))
            k = r.random()
            if k < .2: y = bytes(r.choice(al) for _ in range(r.choice([0, 1, n, n // 2])))
            elif k < .3: y = x[::-1]
            elif k < .4: y = x + x
            z = edit(r, r.choice([x, y]), r.choice([1, 3, 10]))
            d = self.ask([(x, y), (y, x), (y, z), (x, z), (z, x)], c)
            if d[0] != d[1] or d[3] != d[4]: raise Violation('symmetry', 'distances %r' % d, x=x, y=y, z=z)
            if d[3] > d[0] + d[2]: raise Violation('triangle', 'distances %r' % d, x=x, y=y, z=z)
            c['triangles'] = 1
            out.append(Case(x + b'|' + y + b'|' + z, x != y, c, {'a': x[:60], 'b': y[:60]}, 5))
        return out

if __name__ == '__main__': sys.exit(main(C20()))
