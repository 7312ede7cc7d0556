#!/usr/bin/env python3
"""C08: unicode escapes become UTF-8 characters, or stay untouched with --ascii."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import layout

def units(raw):
    """text between quotes -> list of (code point, written as an escape); pairs of escapes stay two units"""
    out = []; i = 0
    while i < len(raw):
        if raw[i] != '\\': out.append((ord(raw[i]), False)); i += 1
        elif raw[i+1] == 'u': out.append((int(raw[i+2:i+6], 16), True)); i += 6
        else: out.append(({'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}.get(raw[i+1]) or ord(raw[i+1]), True)); i += 2
    return out

def expected(us):
    """units as they must come out: pairs of surrogate escapes joined, and only what must be escaped is"""
    out = []; i = 0
    while i < len(us):
        c, e = us[i]
        if 0xd800 <= c < 0xdc00 and e and i + 1 < len(us) and us[i+1][1] and 0xdc00 <= us[i+1][0] < 0xe000:
            c = 0x10000 + ((c & 0x3ff) << 10) + (us[i+1][0] & 0x3ff); i += 1
        out.append((c, c < 32 or c in (0x22, 0x5c) or 0xd800 <= c < 0xe000)); i += 1
    return out

def u(r, c):
    h = '%04x' % c; k = r.randrange(3)
    return '\\u' + (h if k == 0 else h.upper() if k == 1 else ''.join(r.choice([x, x.upper()]) for x in h))

PIECES = [lambda r: u(r, r.randrange(0x10000)), lambda r: u(r, r.randrange(0xd800, 0xdc00)), lambda r: u(r, r.randrange(0xdc00, 0xe000)), lambda r: u(r, r.randrange(0x80)),
          lambda r: u(r, r.choice([0, 8, 9, 10, 12, 13, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff])),
          lambda r: r.choice('abcuUxdD80 '), lambda r: r.choice(['é', '€', '\u0080', '\u07ff', '\u0800', '\uffff', '😀', '\U0010ffff', '\U00010000', '\x7f']),
          lambda r: r.choice(['\\\\', '\\"', '\\n', '\\t', '\\b', '\\f', '\\r', '\\\\u0041', '\\\\u00e9']), lambda r: 'u' + '%04x' % r.randrange(0x10000),
          lambda r: u(r, r.randrange(0xd800, 0xdc00)) + u(r, r.randrange(0xdc00, 0xe000))]

class C08(CliCheck):
    prop = 'C08'
    BATCH = 128
    chunk = 8
    rule = ('every code unit escaped alone between letters, as value and as key; surrogate pairs (thorough: all 1048576); random sequences of escapes, unpaired surrogates, '
            'raw characters, short escapes and escaped backslashes; each with and without --ascii; non-trivial: every string (each holds an escape)')
    minimum = {'units': 65536, 'pairs': 8000, 'sequences': 8000, 'ascii': 10000}
    NPAIR = 1024 * 1024
    def plan(self):
        self.b_units = 65536 // self.BATCH
        self.b_pairs = self.NPAIR // self.BATCH if THOROUGH else 160
        self.b_seq = 20000 if THOROUGH else 500
    @property
    def quick(self): self.plan(); return 2 * (self.b_units + self.b_pairs) + self.b_seq
    thorough = quick
    def case(self, i, r):
        self.plan(); key = False
        if i < 2 * self.b_units:
            kind = 'units'; key = i & 1; b = i >> 1
            strs = ['x' + u(r, c) + r.choice(['y', '', '0', 'd']) for c in range(b * self.BATCH, (b + 1) * self.BATCH)]
        elif i < 2 * (self.b_units + self.b_pairs):
            kind = 'pairs'; j = i - 2 * self.b_units; key = j & 1; b = j >> 1
            if THOROUGH: ps = [(b * self.BATCH + k) for k in range(self.BATCH)]
            else: ps = [r.randrange(self.NPAIR) if k % 8 else r.choice([0, 1, 1023, 1024, self.NPAIR - 1, self.NPAIR - 1024, self.NPAIR - 1023]) for k in range(self.BATCH)]
            strs = [r.choice(['', 'x', u(r, 0xe9), u(r, 0xd83d)]) + u(r, 0xd800 + (p >> 10)) + u(r, 0xdc00 + (p & 1023)) + r.choice(['', 'y', u(r, 0xdc01)]) for p in ps]
        else:
            kind = 'sequences'; key = i & 1
            strs = [''.join(r.choice(PIECES)(r) for _ in range(r.choice([1, 2, 2, 3, 4, 6, 10]))) for _ in range(40)]
        if key: text = '[' + ','.join('{"%s":"%s"}' % (s, s) for s in strs) + ']'
        else: text = '[' + ','.join('"%s"' % s for s in strs) + ']'
        out = []
        for asc in (False, True):
            opt = ([b'--ascii'] if asc else []) + opts(r, [b'--compress', b'--keep-order', b'-W'], .2)
            r.shuffle(opt)
            res = self.run(opt, text)
            data = dict(options=opt)
            if len(text) < 3000: data['input'] = text
            clean(res, input_=text, **data)
            o = decode(res.out, input_=text, **data)
            try: d, = layout.raw_docs(o)
            except ValueError as e: raise Violation('output', str(e), stdout=o, **data)
            got = []
            for x in d[1]:
                if key: got += [x[1][0][0][1:-1], x[1][0][1][1][1:-1]]
                else: got.append(x[1][1:-1])
            want = [s for s in strs for _ in range(2 if key else 1)]
            if len(got) != len(want): raise Violation('output', '%d strings written for %d' % (len(got), len(want)), stdout=o, **data)
            for w, g in zip(want, got):
                if asc:
                    if w != g: raise Violation('ascii', 'with --ascii "%s" is written "%s"' % (w, ascii(g)), string=w, **data)
                else:
                    e = expected(units(w)); ug = units(g)
                    if e != ug: raise Violation('escape', '"%s" is written "%s"' % (ascii(w), ascii(g)), string=w, **data)
        return [Case(('k' if key else 'v') + s, True, {kind: 1, 'ascii': 1, 'key' if key else 'value': 1}, {'string': s}, 2) for s in strs]

if __name__ == '__main__': sys.exit(main(C08()))
