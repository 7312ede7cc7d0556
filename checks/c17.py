#!/usr/bin/env python3
"""C17: the diff view shows both documents, aligned, with their markers."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib')); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from uicheck import *
import api, splitview
from c16 import mutate as alter
from c14 import word

def depth(t): return 1 + max([depth(x if t[0] == 'a' else x[1]) for x in t[1]], default=0) if t[0] in 'ao' else 0

def numbers(t):
    """only numbers shown as they are written"""
    if t[0] == 'a': return ('a', [numbers(x) for x in t[1]])
    if t[0] == 'o': return ('o', [(k, numbers(v)) for k, v in t[1]])
    return ('n', str(int(t[1]) % 1000)) if t[0] == 'n' and t[1] not in NUMS and not any(c in t[1] for c in '.eE') else ('n', '2.5') if t[0] == 'n' and t[1] not in NUMS else t

class C17(UiCheck):
    prop = 'C17'
    rule = ('sessions of the real diff view on a pseudo terminal tall enough: pairs of documents (altered copies, unrelated ones, identical ones), moves, folding, changes of the active half, searches, '
            'resizes; every cell of both halves judged after every key against the pairing of the comparison itself; non-trivial: the documents differ')
    minimum = {'screens': 8000, 'pairs': 50000, 'one_side': 30000, 'modified': 10000, 'changes': 250, 'coupled': 300, 'jumps': 600, 'wrapped': 200, 'unfolded': 50, 'both_selected': 4000, 'short_screens': 2000, 'short_scrolled': 400, 'resizes': 80, 'multiline': 100, 'tiny': 20}
    quick, thorough = 600, 20000
    def prepare(self): build.build('ui'); build.build('api_asan')
    def setup(self):
        UiCheck.setup(self)
        self.api = api.Api(build.build('api_asan'), self.dir)
    def teardown(self):
        if getattr(self, 'api', None): self.api.close()
    def case(self, i, r):
        c = {}
        cols = r.choice([80, 80, 100, 132, 60, 50, 41, r.randint(36, 140)])
        w = cols // 2 - 4; asc = r.random() < .15; alphabet(r, asc)
        n = r.choice([1, 3, 6, 12, 12, 25, 30])
        long = r.random() < .03
        keep0 = r.random() < .5
        a = long_doc(r, min(w, 60), 2) if long else doc(r, min(w, 60), n)
        k = r.random()
        if long: k = max(k, .2)
        b = a if k < .08 else doc(r, min(w, 60), n) if k < .2 else alter(r, a, r.choice([1, 1, 2, 3, 5]), lambda r: jg.gen_tree(r, 2, [6], lambda r: text(r, 10), lambda r: r.choice(NUMS), top=False))
        b = numbers(b)
        if k > .95: a, b = b, a
        # the indentation leaves room
        w = max(w, 4 * max(depth(a), depth(b)) + 6); cols = max(cols, 2 * w + 8)
        if r.random() < .4: # an item of either, folded or not, ends at the edge or beside it
            lens, fold = set(), set()
            for t in (a, b):
                for q, x, parts in ui.Doc(t, keep0).lines(0):
                    m = 2 + x + sum(len(p) for p, _ in parts)
                    lens.add(m)
                    if q.container() and q.kids and parts[0][0] not in '}]': fold.add(m + (7 if parts[0][1] == 'k' else 6))
            fit = [v for m in (fold if r.random() < .4 else lens) for v in (m // 2, m // 2 + 1, m - 1, m, m + 1) if max(10, 4 * max(depth(a), depth(b)) + 3) <= v <= 75]
            if fit: cols = 2 * (r.choice(fit) + 2) + r.randint(0, 1); c['fitted'] = 1
        keep, color = keep0, r.random() < .85
        rel = ['a%d.json' % r.randint(0, 9), r.choice(['b.json', 'a long name for a file with a document.json'] + (['données.json', 'é' * 80, 'Яж' * 15] if r.uni else []))]
        for p, t in zip(rel, (a, b)):
            write_doc(os.path.join(self.dir, p), r, t, asc)
        args = ['--diff'] + (['--keep-order'] if keep else []) + (['--ascii'] if asc else []) + ([] if color else ['--color=never'])
        flags = ' '.join(x for x in args[1:] if x != '--color=never')
        rep = self.api.call('diff', flags, *[open(os.path.join(self.dir, p), 'rb').read() for p in rel])
        if rep.startswith(('noroot', 'exception')): raise Violation('comparison', 'cannot compare: %s' % rep[:300], a=repr(a), b=repr(b))
        def height(w): return sum(sum(len(x[2]) for x in splitview.Half(ui.Doc(t, keep), nodes).steps(w, color)) for t, nodes in zip((a, b), splitview.read(rep)))
        def size():
            cols = r.choice([80, 100, 60, 50, r.randint(36, 140)])
            if cols // 2 - 4 < w: cols = max(cols, 2 * w + 8)
            if short: return r.randint(5, 25), cols
            return height(cols // 2 - 2) + 5 + r.randint(0, 10), cols
        short = long and r.random() < .6 or i % 4 == 3
        size0 = (r.randint(5, 25), cols) if short else (height(cols // 2 - 2) + 5 + r.randint(0, 10), cols)
        s = splitview.Split(self.exe, args + rel, list(zip(rel, (a, b))), rep, *size0,  keep, asc, color, self.dir, os.path.join(self.dir, 'err'), c, short=short, tiny=tiny(r, .2) if short else None)
        try:
            texts = [x.text for h in s.half for x in h.doc.items if x.text] + [x.key for h in s.half for x in h.doc.items if x.key]
            texts = [t for t in texts if all(32 <= ord(q) < 127 or q in ui.WIDE for q in t)]
            if any(len(x[2]) > 1 and not x[2][1][3] for h in s.half for x in h.steps(s.width(), color)): c['multiline'] = 1
            for _ in range(r.choice([3, 8, 15])):
                k = r.random()
                if long and r.random() < .3:
                    m = r.choice(['j', 'j', 'NPAGE', 'k'])
                    for _ in range(r.choice([100, 260])): s.press(m)
                if r.random() < .12: # to the other half and back, from an item of one side only
                    m = r.choice(['j', 'DOWN', 'NPAGE', 'k', 'PPAGE'])
                    for _ in range(12):
                        if s.half[1-s.act].sel is None: break
                        s.press(m)
                    if s.half[1-s.act].sel is None and r.random() < .3: s.press('h')
                    if s.half[1-s.act].sel is None: c['there_and_back'] = c.get('there_and_back', 0) + 1
                    for _ in range(r.choice([1, 2, 2, 2, 3])):
                        s.change('w')
                        if r.random() < .3: walk(s, r, 1)
                    walk(s, r, r.choice([1, 2, 4]))
                if k < .5: walk(s, r, r.choice([1, 3, 10]))
                elif k < .65: position(s, r, r.randint(1, 3))
                elif k < .8: s.change(r.choice(['w', 'w', 'h', 'l', 'LEFT', 'RIGHT']))
                elif k < .83: s.resize(*size(), tiny=tiny(r, .2))
                elif k < .93:
                    s.search(word(r, texts), r.choice(['\n', '\n', '\n', 'ESC']))
                    for _ in range(r.choice([0, 1, 3, 8])): s.next()
                else: s.next()
            s.quit()
        finally: s.close()
        return Case(repr((a, b)) + repr(s.log), a != b, c, {'a': jg.short(a, 150), 'b': jg.short(b, 150), 'keys': s.log[:60]}, c['keys'])

if __name__ == '__main__': sys.exit(main(C17()))
