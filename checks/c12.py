#!/usr/bin/env python3
"""C12: the viewer always shows a contiguous window of the document."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from uicheck import *

class C12(UiCheck):
    prop = 'C12'
    rule = ('sessions of the real viewer on a pseudo terminal of many sizes, with documents of every shape, long texts and escapes; every cell of the screen compared with the rendering '
            'after every key, fold, search, resize and document; non-trivial: at least 20 screens judged')
    minimum = {'screens': 5000, 'scrolled': 1000, 'collapsed': 100, 'resizes': 100, 'documents': 20, 'wrapped_lines': 200, 'tiny': 50}
    quick, thorough = 2000, 50000
    def case(self, i, r):
        rows, cols = size(r); c = {}; w0 = min(cols, 60) if r.random() < .85 else cols
        asc = r.random() < .2; alphabet(r, asc)
        nd = r.choice([1, 1, 1, 2, 3])
        docs = [doc(r, w0) for _ in range(nd)]
        rows, cols = fitted(r, docs, w0, rows, cols)
        s = self.session(r, docs, rows, cols, c=c, keep=r.random() < .4, ascii=asc, color=r.random() < .85, tiny=tiny(r, .1))
        try:
            more = True
            while more:
                c['wrapped_lines'] = c.get('wrapped_lines', 0) + sum(len(l[1]) > 1 for l in ui.Grid(s.doc, cols).lines)
                for _ in range(r.choice([2, 4, 8])):
                    k = r.random()
                    if k < .35: walk(s, r, r.choice([3, 10, 30]))
                    elif k < .6: walk(s, r, 25, ['DOWN', 'DOWN', 'NPAGE', 'LEFT'])
                    elif k < .75: position(s, r, 3)
                    elif k < .87:
                        rows, cols = fitted(r, docs, w0)
                        s.judge_resized(s.resize(rows, cols, tiny(r, .1)))
                    else:
                        s.search(list(r.choice(['a', 'o', 'e', '1', 'foo', 'zzzz', ''])))
                        for _ in range(r.randint(0, 3)): s.nextmatch()
                more = s.quit()
        finally: s.close()
        return Case(repr(docs) + repr(s.log), c.get('screens', 0) >= 20, c, {'size': [rows, cols], 'keys': s.log[:40], 'document': jg.short(docs[0], 200)}, c['screens'])

if __name__ == '__main__': sys.exit(main(C12()))
