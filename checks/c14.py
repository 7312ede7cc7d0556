#!/usr/bin/env python3
"""C14: search visits every match in document order, wraps, and reports failure."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from uicheck import *

def word(r, texts):
    """what to search: mostly part of some text"""
    if texts and r.random() < .75:
        t = r.choice(texts)
        t = ''.join(c for c in t if c not in '\\/')
        a = r.randint(0, max(0, len(t) - 1)); w = t[a:a + r.choice([1, 1, 1, 2, 3, 6])].strip()
        if w: return w
    return r.choice(['a', 'e', 'o', '1', '2', 'foo', 'true', 'null', 'zzzz', 'nothing like this'])

class C14(UiCheck):
    prop = 'C14'
    rule = ('sessions of the real viewer on a pseudo terminal: searches for parts of the texts of the document, then n up to several times past the last match, with moves, folding, resizes, empty '
            'and abandoned prompts, corrections and prompts longer than the screen in between; selection, window, marks, messages and folding judged after every key; non-trivial: at least 3 jumps')
    minimum = {'jumps': 10000, 'wrapped': 2000, 'not_found': 2000, 'unfolded': 1000, 'aborted': 300, 'backspaces': 500, 'cycles': 300, 'cleared': 200, 'before_any': 200, 'long_prompts': 50}
    quick, thorough = 1000, 30000
    def case(self, i, r):
        rows, cols = size(r); c = {}; w0 = min(cols, 60) if r.random() < .85 else cols
        asc = r.random() < .15; alphabet(r, asc)
        docs = [doc(r, w0) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        rows, cols = fitted(r, docs, w0, rows, cols)
        s = self.session(r, docs, rows, cols, c=c, keep=r.random() < .5, ascii=asc, color=r.random() < .85)
        def add(k, n=1): c[k] = c.get(k, 0) + n
        try:
            more = True
            while more:
                d = s.doc
                texts = [x.text for x in d.items if x.text] + [x.key for x in d.items if x.key]
                if r.random() < .3:
                    for _ in range(r.randint(1, 2)): s.nextmatch()     # nothing was searched in this document
                    add('before_any')
                if r.random() < .5: position(s, r, r.randint(1, 8))
                for _ in range(r.choice([2, 4, 7])):
                    k = r.random()
                    if k < .12:
                        s.search(list(word(r, texts))[:r.randint(0, 6)], end='ESC')
                    elif k < .18:
                        s.search([])
                        if r.random() < .5: s.nextmatch()
                    else:
                        w = word(r, texts); ks = []
                        if r.random() < .05 and cols < 60: w = (w * 80)[:cols + r.randint(-3, 30)]; add('long_prompts')
                        for ch in w:
                            if r.random() < .08:
                                ks.append(r.choice('xyz0é€' if r.uni else 'xyz0'))     # a slip, corrected
                                if r.random() < .95: ks.append(r.choice(['BACKSPACE', 'DEL', '^H']))
                            ks.append(ch)
                        if r.random() < .1: ks = [r.choice(['BACKSPACE', 'DEL', '^H'])] * r.randint(1, 2) + ks
                        if r.random() < .1: ks.insert(r.randint(0, len(ks)), r.choice(['UP', 'DOWN', 'LEFT', 'PPAGE', 'F1']))
                        if r.random() < .1: ks += [r.choice('abßЖ→' if r.uni else 'ab'), 'BACKSPACE'] * r.randint(1, 3)
                        s.search(ks, end=r.choice(['\n', '\r', '\n']))
                    if d.results and r.random() < .25:
                        for _ in range(min(60, len(d.results) * r.randint(1, 2) + 1)): s.nextmatch()
                        add('cycles')
                    for _ in range(r.choice([0, 1, 3, 6])):
                        j = r.random()
                        if j < .6: s.nextmatch()
                        elif j < .8: position(s, r, r.randint(1, 3))
                        elif j < .95: walk(s, r, r.randint(1, 6))
                        else:
                            rows, cols = fitted(r, docs, w0); s.judge_resized(s.resize(rows, cols))
                more = s.quit()
        finally: s.close()
        return Case(repr(docs) + repr(s.log), c.get('jumps', 0) >= 3, c, {'size': [rows, cols], 'keys': s.log[:60], 'document': jg.short(docs[0], 200)}, c['keys'])

if __name__ == '__main__': sys.exit(main(C14()))
