#!/usr/bin/env python3
"""C13: the navigation keys walk the document and keep the selection visible."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from uicheck import *

OTHER = ['x', ' ', 'F1', 'HOME', 'DC', 'z', '0', 'g', '?', 'BACKSPACE', '\x80', '\xff', '\xc3', '~', 'i', 'd', 'W', '<']
class C13(UiCheck):
    prop = 'C13'
    rule = ('sessions of the real viewer on a pseudo terminal walking documents of every shape and on screens from 3 rows: complete traversals down and up, runs of each key, random walks with folding, '
            'other keys and control sequences; after every key the one highlighted item must be the one the key leads to, and on the screen; non-trivial: the selection moved at least 10 times')
    minimum = {'moved': 5000, 'traversals': 50, 'down': 5000, 'up': 3000, 'left': 500, 'right': 500, 'pup': 500, 'pdown': 500, 'collapsed': 300, 'expanded': 200, 'other_keys': 300, 'sequences': 100, 'scrolled': 2000, 'folded_at_start': 20}
    quick, thorough = 1500, 45000
    def traverse(self, s, r, c):
        """every visible item, downwards then upwards"""
        down, up = r.choice([('DOWN', 'UP'), ('j', 'k'), ('J', 'K')])
        n = len(s.doc.visible()) + len(s.doc.items) * 2 + 50
        for key, first, last in ((up, None, s.doc.root), (down, s.doc.root, s.doc.visible()[-1]), (up, None, s.doc.root)):
            seen = [s.doc.sel]; left = n * 3
            while s.doc.sel is not last and left:
                s.press(key); left -= 1
                if s.doc.sel is not seen[-1]: seen.append(s.doc.sel)
            if not left: s.bad('stuck', 'the end of the document is not reached with %s' % key)
            if first is not None and seen != s.doc.visible(): s.bad('visit', 'not every item is visited with %s' % key)
            for _ in range(r.randint(1, 3)): s.press(key)
        c['traversals'] = c.get('traversals', 0) + 1
    def case(self, i, r):
        rows, cols = size(r); c = {}; w0 = min(cols, 60) if r.random() < .85 else cols
        asc = r.random() < .1; alphabet(r, asc)
        docs = [doc(r, w0) for _ in range(r.choice([1, 1, 2]))]
        rows, cols = fitted(r, docs, w0, rows, cols)
        s = self.session(r, docs, rows, cols, c=c, keep=r.random() < .5, ascii=asc, color=r.random() < .7)
        try:
            more = True
            while more:
                if r.random() < .4:
                    position(s, r, r.randint(1, 6)); c['folded_at_start'] = c.get('folded_at_start', 0) + 1
                for _ in range(r.choice([2, 4, 8])):
                    k = r.random()
                    if k < .25 and (len(s.doc.items) < 250 or r.random() < .2): self.traverse(s, r, c)
                    elif k < .5: walk(s, r, r.choice([5, 20, 60]))
                    elif k < .6: walk(s, r, 30, ['DOWN', 'NPAGE', 'RIGHT', 'l'])
                    elif k < .7: walk(s, r, 30, ['UP', 'PPAGE', 'LEFT', 'h'])
                    elif k < .8: walk(s, r, 30, ['NPAGE', 'NPAGE', 'PPAGE'])
                    elif k < .85:
                        for _ in range(r.randint(1, 5)): s.press(r.choice([x for x in OTHER]))
                    elif k < .93:
                        # a sequence nobody knows
                        s.prefix(r.choice(['^A', '^W', '^X', '^B', '^F', '^N', '^P', '^E', '^I', '^J', '^[']), r.choice(['j', 'k', 'q', 'l', 'h', 'w', '/', 'n', 'Q', 'x']))
                    else:
                        rows, cols = fitted(r, docs, w0); s.judge_resized(s.resize(rows, cols))
                more = s.quit()
        finally: s.close()
        return Case(repr(docs) + repr(s.log), c.get('moved', 0) >= 10, c, {'size': [rows, cols], 'keys': s.log[:40], 'document': jg.short(docs[0], 200)}, c['keys'])

if __name__ == '__main__': sys.exit(main(C13()))
