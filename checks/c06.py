#!/usr/bin/env python3
"""C06: diagnostics point at the exact line, column and text of the error."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import diag

ILLEGAL = "abcdghijklmopqrsuvwxyzABCDEGHIJKLMOPQRSUVWXYZ#$%&'()*+/;<=>?@\\^_`|~!"

def txt(r):
    k = r.random()
    if k < .6: return ''.join(r.choice('abcdefghij klmnop_-') for _ in range(r.randint(0, 12)))
    if k < .9: return jg.gen_text(r, True)
    return ''.join(r.choice('abcdefghij') for _ in range(r.choice([30, 43, 44, 45, 46, 47, 60, 200])))

def number(r):
    return r.choice([str(r.randint(-99, 9999)), '0', '-1', '1.5', '-2.25e3', '1e5', '123456789012', '0.125', str(10**25)])

class Pos:
    """a valid document, its tokens with, for each, what the grammar expects there"""
    def __init__(self, t, r):
        self.toks, self.state = [], []
        self.r = r
        self.value(t, 'value')
    def put(self, tok, state):
        self.toks.append(tok); self.state.append(state)
    def value(self, t, state):
        r = self.r
        if t[0] == 'o':
            self.put('{', state)
            for i, (k, v) in enumerate(t[1]):
                if i: self.put(',', 'afterO')
                self.put('"' + jg.ser_text(r, k, .02) + '"', 'keyN' if i else 'key0')
                self.put(':', 'colon')
                self.value(v, 'value')
            self.put('}', 'afterO' if t[1] else 'key0')
        elif t[0] == 'a':
            self.put('[', state)
            for i, v in enumerate(t[1]):
                if i: self.put(',', 'afterA')
                self.value(v, 'value' if i else 'value0')
            self.put(']', 'afterA' if t[1] else 'value0')
        elif t[0] == 's': self.put('"' + jg.ser_text(r, t[1], .02) + '"', state)
        else: self.put(t[1], state)

SCALARS = ['string', 'number', 'literal']
WRONG = {'value': ['}', ',', ':', ']'], 'value0': ['}', ',', ':'], 'key0': ['{', '[', ']', ',', ':', 'number', 'literal'], 'keyN': ['{', '[', ']', '}', ',', ':', 'number', 'literal'],
         'colon': ['{', '}', '[', ']', ',', 'string', 'number', 'literal'], 'afterO': [':', ']', '{', '['] + SCALARS, 'afterA': [':', '}', '{', '['] + SCALARS}

def string_with(r, bad):
    """a string token with the text bad inside"""
    a, b = txt(r).replace('"', ''), txt(r).replace('"', '')
    if r.random() < .2: a += r.choice(['\\n', '\\\\', '\\u00e9', '\\"', '\\ud83d\\ude00', '\\ud83d'])
    return '"' + a + bad + b + '"', 1 + len(a)

def offence(r, state, keys):
    """(text, offset of the last character of the offending token, kind)"""
    canval = state in ('value', 'value0')
    cankey = state in ('key0', 'keyN')
    kinds = ['illegal', 'wrong', 'wrong']
    if canval: kinds += ['escape', 'hex', 'bool', 'null', 'badnumber']
    if cankey: kinds += ['escape', 'hex'] + (['repeated'] * 2 if keys else [])
    k = r.choice(kinds)
    if k == 'illegal': return r.choice(ILLEGAL), 0, k
    if k == 'wrong':
        w = r.choice(WRONG[state])
        if w == 'string': s = '"' + jg.ser_text(r, txt(r), .02) + '"'; return s, len(s) - 1, 'wrong_string'
        if w == 'number': s = number(r); return s, len(s) - 1, 'wrong_number'
        if w == 'literal': s = r.choice(['true', 'false', 'null']); return s, len(s) - 1, 'wrong_literal'
        return w, 0, 'wrong_punctuation'
    if k == 'escape':
        c = r.choice("acdeghijklmopqsvwxyzABCDEFNRTU0123456789'-+.,:;{}[]()!@#$%^&* ")
        s, o = string_with(r, '\\' + c); return s, o + 1, k
    if k == 'hex':
        h = [r.choice('0123456789abcdefABCDEF') for _ in range(4)]
        for p in r.sample(range(4), r.randint(1, 4)): h[p] = r.choice([chr(x) for x in range(32, 127) if chr(x) not in '0123456789abcdefABCDEF'])
        s, o = string_with(r, '\\u' + ''.join(h)); return s, o + 5, k
    if k == 'bool':
        w = r.choice(['true', 'false'])
        p = r.randint(1, len(w) - 1)
        if r.random() < .15: return w + r.choice('aelrsu'), len(w), 'bool_long'
        return w[:p] + r.choice('xyz01-"{},:;#') + w[p+1:], p, k
    if k == 'null':
        w = list('null'); w[r.randint(1, 3)] = r.choice('xyzaet01-{},:#')
        return ''.join(w), 3, k
    if k == 'badnumber':
        s = r.choice(['-', '1e', '2.5E', '1e+', '-3e-', '.', '-.', '-e', '.e'])
        return s, len(s) - 1, k
    kk = r.choice(keys)
    w = r.choice(['', '', ' ', '  ', '\n', '\n  '])
    return kk + w + ':', len(kk + w), k

class C06(CliCheck):
    prop = 'C06'
    quick, thorough = 40000, 1000000
    chunk = 200
    rule = ('a random well-formed document cut at a random token, where one offending token is put whose position is known; white space and line ends (LF, CR, CRLF) vary, '
            'lines are short, around the 45 characters of the excerpt, or long; non-trivial: the error is not in the first column of the first line')
    assumptions = ['the line of the error holds ASCII only (columns are bytes)']
    minimum = {k: 100 for k in ['illegal', 'wrong_punctuation', 'wrong_string', 'wrong_number', 'wrong_literal', 'escape', 'hex', 'bool', 'null', 'badnumber', 'repeated',
                                'line_gt_1', 'long_line', 'short_line', 'crlf']}
    def case(self, i, r):
        while True:
            t = jg.gen_tree(r, r.choice([1, 2, 3, 4]), [r.choice([4, 10, 30])], textfn=txt, numfn=number)
            if t[0] in 'oa': break
        if r.random() < .03: t = jg.deep_tree(r, r.choice([10, 40]))
        d = Pos(t, r)
        cut = r.randrange(1, len(d.toks))
        keys = []       # keys already read in the innermost object
        stack = [[]]
        for j in range(cut):
            x = d.toks[j]
            if x == '{': stack.append([])
            elif x == '[': stack.append([])
            elif x in '}]' and len(x) == 1: stack.pop()
            elif d.state[j] in ('key0', 'keyN'): stack[-1].append(x)
        keys = stack[-1]
        bad, off, kind = offence(r, d.state[cut], keys)
        nl = r.choice(['\n', '\n', '\r\n', '\r', None])
        def ws():
            k = r.random()
            if style == 0: return ''
            if style == 1: return r.choice(['', '', ' ', '  ', '\t', r.choice('\t\f\v\x01\x7f')])
            if style == 2: return r.choice(['', ' ', nl or r.choice(['\n', '\r', '\r\n']), '    '])
            if style == 3: return ''.join(r.choice([' ', '  ', nl or r.choice(['\n', '\r', '\r\n'])]) for _ in range(r.randint(0, 5)))
            return ' ' * r.choice([0, 1, 5, 40, 43, 44, 45, 46, 100]) if k < .8 else (nl or '\n') * r.randint(1, 3)
        style = r.choice([0, 1, 2, 2, 3, 4])
        big = i % 1500 == 700
        text = r.choice([' ' * r.choice([300, 70000]), '\n' * r.choice([300, 70000]), '\r\n' * 66000]) if big else ws() * (20 if style == 4 and r.random() < .05 else 1)
        prev = ''
        for x in d.toks[:cut] + [bad]:
            w = ws()
            if not w and prev and prev[-1] not in '{}[],:"' and x[0] not in '{}[],:': w = ' ' # do not glue to a scalar
            if x is bad:
                pos = len(text) + len(w) + off
            text += w + x
            prev = x
        text += r.choice(['', ' ', '\n']) + r.choice(['', ''.join(d.toks[cut:]), ',1]', '}', '"x', ' 42'])
        if kind in ('badnumber', 'bool', 'null', 'bool_long', 'wrong_number', 'wrong_literal'):
            text = text[:pos + 1 + len(bad) - 1 - off] + r.choice([' ', ',', ']', '}', '\n']) + text[pos + len(bad) - off:]
        line, col, upto = diag.position(text, pos)
        if not upto.isascii() or not all(c >= ' ' or c in '\t\f\v\x01' for c in upto): return None
        opt = opts(r, [b'--compress', b'--keep-order', b'--ascii'])
        data = dict(input=text, options=opt, kind=kind, expected='line %d, col %d' % (line, col))
        res = self.run(opt, text)
        if res.status: raise Violation('status', 'ended with status %d: %s' % (res.status, jg.short(res.err, 300)), **data)
        if res.out or not res.err: raise Violation('accepted', 'malformed input accepted (%s)' % kind, stdout=res.out, **data)
        data['stderr'] = res.err
        try: ds = diag.parse(res.err.decode('utf-8', 'replace'))
        except ValueError as e: raise Violation('format', str(e), **data)
        if len(ds) != 1: raise Violation('format', '%d diagnostics' % len(ds), **data)
        _, prog, name, l, c, msg, exc, til = ds[0]
        if (l, c) != (line, col): raise Violation('position', '%s reported at line %d, col %d; it is at line %d, col %d' % (kind, l, c, line, col), **data)
        # reading true/false looks one character ahead, which the bounded history may have cost its oldest one
        if exc != upto[-45:] and not (kind == 'wrong_literal' and exc == upto[-44:]): raise Violation('excerpt', 'excerpt %r, expected %r' % (exc, upto[-45:]), **data)
        if til != len(exc) - 1: raise Violation('caret', 'caret after %d tildes, expected %d' % (til, len(exc) - 1), **data)
        if name != 'STDIN': raise Violation('name', 'names %r' % name, **data)
        c = {kind: 1, 'line_gt_1': int(line > 1), 'long_line': int(col > 45), 'short_line': int(col < 45), 'big': int(big), 'exactly_45': int(col == 45), 'crlf': int('\r\n' in text[:pos]),
             'after_cr': int('\r' in text[:pos].replace('\r\n', '')), 'max_line': line, 'max_col': col}
        return Case(text, line > 1 or col > 1, c, {'input': text[:300], 'error': kind, 'line': line, 'col': col})

if __name__ == '__main__': sys.exit(main(C06()))
