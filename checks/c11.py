#!/usr/bin/env python3
"""C11: a search pattern selects exactly the items its text and flags describe."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from uicheck import *
import api, searchref

# regular expressions that mean the same in ECMAScript and in the oracle's library
def regex(r, word):
    def lit(n=3):
        w = word or 'abc'
        k = r.randint(0, max(0, len(w) - 1)); s = w[k:k + r.randint(1, n)]
        return ''.join('\\' + c if c in '.*+?()[]{}|^$\\' else c for c in s) or 'a'
    def atom():
        k = r.random()
        if k < .4: return lit(1) if lit(1)[0] != '\\' else 'a'
        if k < .5: return '.'
        if k < .6: return r.choice(['[abc]', '[a-f]', '[^a-m]', '[0-9]', '[A-Z]', '[^ ]', '[a-z0-9]'])
        if k < .7: return r.choice(['\\d', '\\w', '\\s', '\\D', '\\W', '\\S'])
        if k < .85: return '(' + lit() + '|' + lit() + ')'
        return '(' + lit() + ')'
    out = ''
    if r.random() < .2: out += '^'
    if r.random() < .1: out += '\\b'
    for _ in range(r.randint(1, 3)):
        if r.random() < .5: out += lit()
        else: out += atom() + r.choice(['', '', '*', '+', '?', '{2}', '{1,2}', '{0,1}'])
    if r.random() < .15: out = out + '|' + lit()
    elif r.random() < .2: out += '$'
    return out
INVALID = ['(', '(a', 'a)', '[', '[a', '*a', '+', 'a{2', 'a{3,1}', '[z-a]', '(?<x', '?']

def flip(r, s): return ''.join(c.swapcase() if r.random() < .4 else c for c in s)

def pattern(r, texts, uni, asc=False):
    """(typed text, what kind of pattern): texts are displayed texts"""
    t = r.choice(texts)
    flags = ''
    kind = 'plain'
    k = r.random()
    if k < .22:
        p = regex(r, ''.join(c for c in t if 32 <= ord(c) < 127)) if r.random() < .85 else r.choice(INVALID)
        flags = 'e'; kind = 'regex' if p not in INVALID else 'invalid'
    else:
        j = r.random()
        if j < .2: p = t
        elif j < .45 and ' ' in t:
            w = t.split(' '); a = r.randrange(len(w)); p = ' '.join(w[a:a + r.randint(1, 2)]); kind = 'words'
        elif j < .8: a = r.randint(0, len(t)); p = t[a:a + r.choice([1, 1, 2, 3, 5, 9, 300 if len(t) > 200 else 4])]
        elif j < .9: p = t + r.choice(['x', ' ', 'zz'])
        else: p = r.choice(['a', 'e', 'true', 'null', '1', 'foo', 'zzz', '', ' ', 'FALSE'])
    if r.random() < .3: flags += 'i'
    if r.random() < (.35 if kind == 'words' else .15) and 'e' not in flags: flags += 'w'
    if r.random() < .15 and 'e' not in flags: flags += 'f'
    if r.random() < .25: flags += r.choice('bnso')
    if 'i' in flags and kind not in ('regex', 'invalid'): p = flip(r, p)
    elif 'i' in flags and '\\' not in p: p = flip(r, p) if '[' not in p else p
    # spelling: slashes need a backslash, characters may be escaped
    out = ''
    for c in p:
        if c == '/': out += '\\/'
        elif uni and kind not in ('regex', 'invalid') and not asc and (ord(c) > 127 and r.random() < .4 or c.isalnum() and r.random() < .03):
            for u in ([ord(c)] if ord(c) < 0x10000 else [0xd800 + (ord(c) - 0x10000 >> 10), 0xdc00 + (ord(c) - 0x10000 & 0x3ff)]): out += '\\' + 'u' + r.choice(['%04x', '%04X']) % u
        else: out += c
    if r.random() < .1: out = r.choice([' ', '   ', '\t']) + out
    fl = list(flags); r.shuffle(fl)
    if fl or r.random() < .1: out += '/' + ''.join(fl)
    return out, kind

UNI = ['é', 'É', 'ß', 'λ', '€', '中', '😀', '\u00a0', 'ñ', 'x']
def unitext(r):
    if r.random() < .01: return ' '.join(r.choice(['foo', 'Bar', 'é', '12', 'a/b']) for _ in range(r.choice([60, 100, 300])))
    if r.random() < .5: return text(r, 20)
    return ''.join(r.choice(UNI) if r.random() < .3 else r.choice('abcABC 12/\\"\t\n') for _ in range(r.randint(1, 12)))

class Piece(object): pass
def raw_string(r, asc):
    """(JSON text, displayed text) with escapes that --ascii keeps"""
    raw, shown = '', ''
    for _ in range(r.randint(0, 10)):
        k = r.random()
        if k < .6: c = r.choice('abc ABC/12.'); raw += c; shown += c
        elif k < .7: raw += '\\\\'; shown += '\\\\'
        elif k < .75: raw += '\\"'; shown += '"'
        elif k < .8: raw += '\\n'; shown += '\\n'
        elif k < .9: c = r.choice('éλ'); raw += c; shown += c
        else:
            u = '\\u' + r.choice(['00e9', '0041', '03BB', '0020']); raw += u
            shown += u if asc else chr(int(u[2:], 16))
    return raw, shown

class C11(UiCheck):
    prop = 'C11'
    rule = ('random documents and patterns (parts of their texts with changed case, words, whole texts, regular expressions, invalid ones, escapes, every flag); which items match according to the '
            'program compared with an independent reading of the pattern, both directly and by what the viewer highlights on a screen; non-trivial: some items match and some do not')
    minimum = {'patterns': 20000, 'matching_some': 5000, 'regex': 2000, 'invalid': 200, 'flag_i': 3000, 'flag_w': 2000, 'flag_f': 1500, 'kind_flags': 3000, 'unicode_escapes': 300, 'ascii': 2000, 'long_texts': 20, 'max_long_text': 60000, 'back_references': 6, 'screens': 2000, 'found_on_screen': 500, 'max_found': 260, 'max_pattern': 290}
    quick, thorough = 1200, 30000
    chunk = 4
    def prepare(self):
        build.build('ui')
        try: self.api_exe = build.build('api_asan')
        except build.HarnessError: self.api_exe = None
    def setup(self):
        UiCheck.setup(self)
        self.api = api.Api(self.api_exe, self.dir)
    def teardown(self): self.api.close()
    def case(self, i, r):
        if i in (1, 4): return self.back_references((10, 1000) if i == 1 else (200000,))
        if i % 40 == 2: return self.long_case(r)
        return self.ui_case(r) if i % 3 == 0 else self.api_case(r)
    # ---- long texts, and patterns that take long to try in every way: what matches is known from how the text is made
    def long_case(self, r):
        n = r.choice([3000, 10000, 30000, 60000])
        body = r.choice(['a' * n, ''.join(r.choice('abc') for _ in range(n)), 'ab' * (n // 2)])
        tail = r.choice(['', 'z', 'zz', 'd', 'az'])
        t = body + tail; z, d, abc = 'z' in t, 'd' in t, tail == ''
        pats = [('a.*z', z), ('.*z', z), ('(a|b|c)*z', z), ('(a|b|c)*z$', z), ('^[a-c]*$', abc), ('[a-c]*d', d), ('^(?:(?:a|b)+|c)+$', abc), ('(a+)+z', z and tail[0] in 'a' or z and body[-1] == 'a'),
                ('[abcd]+x', False), ('^.*$', True), ('.{2}$', True), ('a*x', False), ('b(?=zz)', 'bzz' in t), ('z$', t[-1] == 'z'), ('^[^z]*z', z), ('([a-c]{1,3}|x)+z', z)]
        short = 'a' * r.choice([28, 40, 60]) + '!'
        hard = [('(a+)+$', False), ('(a|aa)+$', False), ('^(a*)*b', False), ('(a|a)*x', False), ('(a+)+!', True), ('(.*a){20}!', True)]
        got = {}
        res = self.api.call('search', '--keep-order', '["%s"]' % t, *[p + '/e' + r.choice(['', 's', 'i']) for p, _ in pats]).splitlines()
        res += self.api.call('search', '--keep-order', '["%s"]' % short, *[p + '/e' for p, _ in hard]).splitlines()
        if len(res) != len(pats) + len(hard): raise Violation('lost', 'the document is not parsed: %r' % res[:1])
        for (p, w), l, x in zip(pats + hard, res, [t] * len(pats) + [short] * len(hard)):
            if (len(l.split(' ')) > 1) != w: raise Violation('match', 'the pattern %r/e %s a text of %d characters' % (p, 'does not match' if w else 'matches', len(x)), pattern=p, text=x[:200], end=x[-20:])
        return Case(('long', n, body[:50], tail), True, {'long_texts': 1, 'long_patterns': len(res), 'max_long_text': len(t)}, None, len(res))
    # ---- those need another way of matching
    def back_references(self, sizes):
        a = api.Api(self.api_exe, self.dir, name='backref')
        c = {'back_references': 0}
        try:
            for n in sizes:
                try: res = a.call('search', '--keep-order', '["%s"]' % ('ab' * n + 'cc'), '(a)b\\1/e', '(.)\\1$/e', '(a).*\\1d/e').splitlines()
                except Violation as v:
                    if n == 200000 and v.key in ('crash', 'hang'): raise Violation('back-reference-long-text', v.detail, **v.data)
                    raise
                if [len(l.split(' ')) > 1 for l in res] != [True, True, False]: raise Violation('match', 'back references match %r' % [l[:100] for l in res])
                c['back_references'] += 3
        finally: a.close()
        return Case(('backref', sizes), True, c, None, c['back_references'])
    # ---- directly
    def api_case(self, r):
        asc = r.random() < .25
        items = []; parts = []      # (kind, displayed text) in document order, JSON
        def leaf():
            k = r.random()
            if k < .6 or asc:
                if asc: raw, shown = raw_string(r, True)
                else: t = unitext(r); raw = jg.ser_text(r, t, .1); shown = ui.shown(t)
                return 's', '"' + raw + '"', shown
            if k < .8: n = r.choice(NUMS); return 'n', n, n
            l = r.choice(['true', 'false', 'null']); return ('z' if l == 'null' else 'b'), l, l
        def value(depth):
            if depth and r.random() < .4:
                n = r.randint(0, 4)
                if r.random() < .5:
                    out = [value(depth - 1) for _ in range(n)]
                    return '[' + ','.join(out) + ']'
                out = []; seen = set()
                for _ in range(n):
                    k = leaf()
                    while k[0] != 's' or k[2] in seen or asc and k[1] in seen: k = ('s', '"k%d"' % len(items) + '', 'k%d' % len(items))
                    seen.add(k[2]); seen.add(k[1])
                    items.append(('o', k[2])); out.append(k[1] + ':' + value(depth - 1))
                return '{' + ','.join(out) + '}'
            l = leaf(); items.append((l[0], l[2])); return l[1]
        n = r.randint(1, 10) if r.random() < .96 else r.choice([100, 300])
        doc = '[' + ','.join(value(3) for _ in range(n)) + ']'
        if not items: return None
        texts = [t for _, t in items]
        pats = [pattern(r, texts, True, asc) for _ in range(40)]
        res = self.api.call('search', '--keep-order' + (' --ascii' if asc else ''), doc.encode('utf-8'), *[p[0].encode('utf-8') for p in pats])
        lines = res.splitlines()
        if len(lines) != len(pats): raise Violation('lost', 'the document is not parsed: %r' % res[:200], document=doc)
        c = {'patterns': len(pats), 'max_found': 0, 'max_pattern': max(len(p[0]) for p in pats)}; nt = 0
        K = {'e': 'o', 's': 's', 'i': 'n', 'd': 'n', 'b': 'b', 'n': 'z'}
        for (typed, kind), line in zip(pats, lines):
            w = line.split(' ')
            pat = searchref.Pattern(typed.encode('utf-8'), asc)
            if kind == 'invalid': pat.bad = True
            exp = [(k, t.encode('utf-8')) for k, t in items if pat.match(t, k)]
            got = [(K[x.split(':')[0]], api.unhex(x.split(':')[1])) for x in w[1:]]
            if (w[0] == 'E') != pat.empty(): raise Violation('empty', 'the pattern %r is %s' % (typed, 'not taken as empty' if pat.empty() else 'taken as empty'), pattern=typed)
            if pat.empty(): continue
            if got != exp:
                raise Violation('match', 'the pattern %r %s' % (typed, '; '.join(filter(None, ['matches %r' % [x for x in got if x not in exp][:3] if [x for x in got if x not in exp] else '',
                    'does not match %r' % [x for x in exp if x not in got][:3] if [x for x in exp if x not in got] else '']))), pattern=typed, ascii=asc, document=doc, expected=exp, got=got)
            c['max_found'] = max(c['max_found'], len(exp))
            if exp and len(exp) < len(items): nt += 1
            if kind in ('regex', 'invalid'): c[kind] = c.get(kind, 0) + 1
            for f in 'iwf':
                if getattr(pat, f): c['flag_' + f] = c.get('flag_' + f, 0) + 1
            if pat.kind: c['kind_flags'] = c.get('kind_flags', 0) + 1
            if '\\u' in typed: c['unicode_escapes'] = c.get('unicode_escapes', 0) + 1
            if asc: c['ascii'] = c.get('ascii', 0) + 1
        c['matching_some'] = nt
        return Case(doc + repr(pats), nt > 0, c, {'document': doc[:300], 'patterns': pats[:6]}, len(pats))
    # ---- on the screen
    def ui_case(self, r):
        rows, cols = r.choice([(120, 100), (200, 80), (24, 80), (60, 40)]); c = {}
        asc = r.random() < .2; alphabet(r, asc)
        d = doc(r, min(cols, 60), n=r.choice([6, 12, 25, 40]))
        s = self.session(r, [d], rows, cols, c=c, keep=r.random() < .4, ascii=asc)
        try:
            texts = [x.text for x in s.doc.items if x.text is not None] + [x.key for x in s.doc.items if x.key is not None]
            if not texts: return None
            for _ in range(8):
                p, kind = pattern(r, texts, r.uni)
                p = p.replace('\t', ' ')
                if kind == 'invalid' or any(not (32 <= ord(x) < 127 or x in ui.WIDE) for x in p): continue
                if r.random() < .15 and p:
                    j = r.randrange(len(p))
                    if p[j].isalnum() and '/' not in p and '\\' not in p: p = p[:j] + '\\' + 'u%04x' % ord(p[j]) + p[j+1:]
                s.search(list(p)); c['patterns'] = c.get('patterns', 0) + 1
                c['found_on_screen'] = c.get('found_on_screen', 0) + sum(any(x) for x in s.ui.screen.hit[1:-1])
                if r.random() < .3: s.nextmatch()
                if r.random() < .3: walk(s, r, 3)
            s.quit()
        finally: s.close()
        return Case(repr(d) + repr(s.log), c.get('found_on_screen', 0) > 0, c, {'keys': s.log[:30], 'document': jg.short(d, 200)}, c.get('patterns', 0) + 1)

if __name__ == '__main__': sys.exit(main(C11()))
