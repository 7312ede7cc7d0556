#!/usr/bin/env python3
"""C18: the parsed tree is consistent, and released completely."""
import os, sys, random, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import api

ESC = {'\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
def shown(t):
    """displayed text of a string, as bytes"""
    return ''.join(ESC.get(c) or ('\\u%04x' % ord(c) if ord(c) < 32 or 0xd800 <= ord(c) < 0xe000 else c) for c in t).encode('utf-8')

class N:
    __slots__ = ('kind', 'parent', 'level', 'text', 'value', 'kids', 'idx', 'type')

def expect(t, keep):
    """nodes in preorder"""
    out = []
    def add(kind, parent, text, value=None, type=None):
        n = N(); n.kind, n.parent, n.text, n.value, n.type, n.kids = kind, parent, text, value, type, []
        n.level = parent.level + 1 if parent else 1
        n.idx = len(out); out.append(n)
        if parent: parent.kids.append(n)
        return n
    todo = [(t, None)]
    while todo:
        t, p = todo.pop()
        if isinstance(t, str): # entry: key, then its value
            raise AssertionError
        if t[0] == 'e':
            n = add('e', p, shown(t[1])); todo.append((t[2], n))
        elif t[0] == 'o':
            n = add('o', p, b'{ }'); items = [('e', k, v) for k, v in t[1]]
            if not keep: items.sort(key=lambda e: shown(e[1]))
            todo += [(x, n) for x in reversed(items)]
        elif t[0] == 'a':
            n = add('a', p, b'[ ]'); todo += [(x, n) for x in reversed(t[1])]
        elif t[0] == 's': add('s', p, shown(t[1]), shown(t[1]), 'str')
        elif t[0] == 'l':
            if t[1] == 'null': add('n', p, b'null', None, 'null')
            else: add('b', p, t[1].encode(), '1' if t[1] == 'true' else '0', 'bool')
        elif jg.is_int(t[1]) and -2**63 <= int(t[1]) < 2**63: add('i', p, b'%d' % int(t[1]), '%d' % int(t[1]), 'number')
        else: add('d', p, None, float(t[1]), 'number')
    return out

def wide_tree(r):
    """hundreds of members"""
    n = r.choice([130, 255, 256, 257, 300, 520]); ks = list(range(n)); r.shuffle(ks)
    v = lambda k: r.choice([('n', str(k)), ('s', 'v%d' % k), ('a', []), ('l', 'null'), ('o', [('k%d' % k, ('n', '0'))])])
    t = ('o', [('k%d' % k, v(k)) for k in ks]) if r.random() < .6 else ('a', [v(k) for k in ks])
    return t if r.random() < .7 else ('a', [('n', '1'), t, ('o', [('x', t)])])

class C18(CliCheck):
    prop = 'C18'
    rule = ('random documents parsed, every node visited: kind, text, value, type, parent, level, neighbours, member count, lookups of present and absent keys; members removed one by '
            'one; allocations counted around the life of a parser; non-trivial: at least three nodes')
    minimum = {'nodes': 100000, 'lookups': 30000, 'removed': 3000, 'balances': 2000, 'ends_of_many': 20, 'emptied': 3, 'max_level': 150, 'max_members': 520}
    chunk = 2
    BATCH = 30
    quick, thorough = 1000, 20000
    def prepare(self): build.build('api_asan'); build.build('api')
    def setup(self):
        self.api = api.Api(build.build('api_asan'), self.dir)
        os.makedirs(self.dir + '/p', exist_ok=True)
        self.plain = api.Api(build.build('api'), self.dir + '/p')
    def teardown(self):
        for x in ('api', 'plain'):
            if getattr(self, x, None): getattr(self, x).close()
    def tree(self, flags, t, text, r, c):
        keep = '--keep-order' in flags
        want = expect(t, keep)
        objs = [n for n in want if n.kind == 'o']
        pool = sorted({k.text for n in objs for k in n.kids})
        keys = r.sample(pool, min(len(pool), 8)) + [b'absent', b'']
        for k in r.sample(pool, min(len(pool), 2)): keys += [k + b'x', k[:-1], k.swapcase()]
        kw = dict(input=text, flags=flags)
        lines = self.api.call('tree', flags, text, *keys).split('\n')
        nodes = [l.split(' ') for l in lines if l and l[0] != 'K']
        if lines[0].startswith(('exception', 'noroot')): raise Violation('parse', 'not parsed: %s' % lines[0][:300], **kw)
        if len(nodes) != len(want): raise Violation('count', '%d nodes, expected %d' % (len(nodes), len(want)), reply=lines[:50], **kw)
        for f, n in zip(nodes, want):
            where = 'node %d (%s %r)' % (n.idx, n.kind, (n.text or b'')[:60])
            def bad(key, what, got, exp): raise Violation(key, '%s: %s is %r, expected %r' % (where, what, got, exp), node=f, **kw)
            if f[1] != n.kind: bad('kind', 'kind', f[1], n.kind)
            if int(f[2]) != (n.parent.idx if n.parent else -1): bad('parent', 'parent', f[2], n.parent.idx if n.parent else -1)
            if int(f[3]) != n.level: bad('level', 'level', f[3], n.level)
            # neighbours: previous and next member of the same container; the last one's next is that of the closest enclosing item that has one
            prev = nxt = -1; p = n
            if n.parent and n.parent.kind in 'oa':
                j = self.pos(n)
                if j: prev = n.parent.kids[j-1].idx
            while p.parent:
                if p.parent.kind in 'oa':
                    j = self.pos(p)
                    if j + 1 < len(p.parent.kids): nxt = p.parent.kids[j+1].idx; break
                p = p.parent
            if int(f[4]) != prev: bad('previous', 'previous', f[4], prev)
            if int(f[5]) != nxt: bad('next', 'next', f[5], nxt)
            if n.kind in 'oa':
                if int(f[7]) != len(n.kids): bad('size', 'size', f[7], len(n.kids))
                first = -1
                if n.kids: first = n.kids[0].idx if n.kind == 'a' else n.kids[0].kids[0].idx
                if int(f[6]) != first: bad('first', 'first child', f[6], first)
            if n.text is not None and api.unhex(f[8]) != n.text: bad('text', 'text', api.unhex(f[8]), n.text)
            if n.kind == 'd':
                v = float.fromhex(f[10])
                if v != n.value: bad('value', 'value', v, n.value)
                t8 = api.unhex(f[8]).decode()
                try: back = float(t8)
                except ValueError: back = None
                if back != n.value: bad('text', 'text', t8, repr(n.value))
            elif n.kind == 's':
                if api.unhex(f[10]) != n.value: bad('value', 'value', api.unhex(f[10]), n.value)
            elif n.kind in 'ib':
                if f[10] != n.value: bad('value', 'value', f[10], n.value)
            if n.kind in 'sidbn' and api.unhex(f[9]).decode() != n.type: bad('type', 'type', f[9], n.type)
            c['max_level'] = max(c.get('max_level', 0), n.level); c['max_members'] = max(c.get('max_members', 0), len(n.kids))
        c['nodes'] = c.get('nodes', 0) + len(want)
        look = [l.split(' ') for l in lines if l and l[0] == 'K']
        if len(look) != len(objs) * len(keys): raise Violation('harness', 'lookups missing', **kw)
        for f in look:
            o, k = want[int(f[1])], keys[int(f[2])]
            m = [e for e in o.kids if e.text == k]
            exp = (('1', m[0].idx, m[0].kids[0].idx) if m else ('0', -1, -1))
            if (f[3], int(f[4]), int(f[5])) != exp: raise Violation('lookup', 'looking up %r in the object of node %d gives %r, expected %r' % (k, o.idx, f[3:], exp), **kw)
            c['lookups'] = c.get('lookups', 0) + 1
        # removal
        if objs and len(want) < 1500:
            o = r.choice(objs) if r.random() < .5 else max(objs, key=lambda n: len(n.kids)); have = [e.text for e in o.kids]
            ks = r.sample(have, r.randint(0, min(4, len(have)))) + [b'absent']
            if have: ks += [r.choice(have)]
            if have and r.random() < .5: ks += [r.choice([have[-1], have[-1], have[0]])]
            if len(have) > 64 and (have[-1] in ks or have[0] in ks): c['ends_of_many'] = c.get('ends_of_many', 0) + 1
            if len(have) > 64 and r.random() < .1: ks = have + [b'absent']; c['emptied'] = c.get('emptied', 0) + 1
            r.shuffle(ks)
            rep = self.api.call('erase', flags, text, o.idx, *ks).split('\n')
            gone = set()
            for k, l in zip(ks, rep):
                f = l.split(' ')
                ok = k in have and k not in gone
                gone.add(k)
                left = [e for e in have if e not in gone]
                if f[0] != 'E' or f[1] != str(int(ok)) or int(f[2]) != len(left) or [api.unhex(x) for x in f[3:]] != left:
                    raise Violation('remove', 'removing %r: %r, expected %d and %r' % (k, l[:400], ok, left), object=o.idx, keys=ks, **kw)
                c['removed'] = c.get('removed', 0) + ok
            rest = []
            def keepers(n):
                rest.append(n)
                for x in n.kids:
                    if not (n is o and x.text in gone): keepers(x)
            if c['max_level'] < 300: keepers(want[0])
            if rest:
                num = {id(n): j for j, n in enumerate(rest)}
                got = [l.split(' ') for l in rep[len(ks):] if l]
                exp = [(n.kind, num[id(n.parent)] if n.parent else -1) for n in rest]
                if [(f[1], int(f[2])) for f in got] != exp or any(n.text is not None and api.unhex(f[3]) != n.text for f, n in zip(got, rest)):
                    raise Violation('remove', 'after removing %r something else changed' % ks, object=o.idx, reply=rep[:60], **kw)
        return want
    def pos(self, n):
        for j, x in enumerate(n.parent.kids):
            if x is n: return j
    def balance(self, flags, text, c, diff):
        f = self.plain.call('leak', flags, text, 'diff' if diff else '').split(' ')
        if f[0] == 'exception': raise Violation('parse', ' '.join(f)[:300], input=text)
        if f[0] != '0' or f[1] != '0':
            raise Violation('leak', '%s blocks, %s bytes are not released%s' % (f[0], f[1], ' (a comparison included)' if diff else ''), input=text, flags=flags)
        c['balances'] = c.get('balances', 0) + 1; c['allocations'] = c.get('allocations', 0) + int(f[2])
    def case(self, i, r):
        out = []
        for _ in range(self.BATCH):
            c = {}
            k = r.random()
            t = jg.gen_tree(r, r.choice([2, 3, 4, 6])) if k < .965 else wide_tree(r) if k < .975 else jg.deep_tree(r, r.choice([30, 100, 180]))
            flags = r.choice(['', '', '--keep-order', '-W', '--keep-order -W', 'none'])
            text = jg.serialise(r, t)
            want = self.tree(flags, t, text, r, c)
            if r.random() < .4: self.balance('' if flags == 'none' else flags, text, c, r.random() < .3)
            if '-W' in flags and r.random() < .6: # a key given again: the last value only, nothing leaked
                dup = self.duplicate(r, t)
                if dup:
                    t2, text2 = dup
                    self.tree(flags, t2, text2, r, c); self.balance(flags, text2, c, False); c['repeated'] = 1
            out.append(Case(text + flags, len(want) > 2, c, {'input': text[:200], 'flags': flags}))
        return out
    def duplicate(self, r, t):
        """(resulting tree, text) with members repeated"""
        if t[0] != 'o' or not t[1]: return None
        first = list(t[1]); again = []
        js = r.sample(range(len(first)), min(len(first), r.randint(1, 3)))
        if r.random() < .4: js = [r.choice([0, len(first) - 1, len(first) - 1])] + js
        for j in dict.fromkeys(js):
            again.append((first[j][0], jg.gen_tree(r, 2, [5], top=False)))
        res = [m for m in first if m[0] not in dict(again)] + again
        return ('o', res), jg.serialise(r, ('o', first + again))

if __name__ == '__main__': sys.exit(main(C18()))
