#!/usr/bin/env python3
"""C05: -W tolerates exactly the non-blocking errors, with one warning for each."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import diag, layout, modes, recog

STD = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', '"': '"', '\\': '\\', '/': '/'}
def norm(raw):
    """string token -> text, an unknown escape \\q being kept as two marked characters"""
    s = raw[1:-1]; out = []; i = 0
    while i < len(s):
        if s[i] != '\\': out.append(s[i]); i += 1
        elif s[i+1:i+2] in STD: out.append(STD[s[i+1]]); i += 2
        elif s[i+1:i+2] == 'u': out.append(chr(int(s[i+2:i+6], 16))); i += 6
        else: out.append('\U000f0000' + s[i+1]); i += 2
    return jg.fix_pairs(''.join(out))
def to_tree(raw):
    if raw[0] == 'o': return ('o', [(norm(k), to_tree(v)) for k, v in raw[1]])
    if raw[0] == 'a': return ('a', [to_tree(v) for v in raw[1]])
    x = raw[1]
    if x[0] == '"': return ('s', norm(x))
    if x in ('true', 'false', 'null'): return ('l', x)
    return ('n', x)

def spell(c):
    """a character of a key, always spelt alike: --ascii compares keys as they are spelt"""
    return jg.SHORT.get(c) or ('\\u%04x' % ord(c) if c < ' ' or '\ud800' <= c <= '\udfff' else c)

class Writer:
    """writes a tree with tolerated errors at rate p; records them in input order and computes the expected tree"""
    def __init__(self, r, p, ws):
        self.r, self.p, self.ws = r, p, ws
        self.out = []; self.n = 0; self.events = []
    def raw(self, s):
        self.out.append(s); self.n += len(s)
    def put(self, s):
        self.raw(self.ws()); self.raw(s)
    def text(self, t, esc):
        """a string token, with unknown escapes; returns its text"""
        r = self.r
        self.raw(self.ws()); self.raw('"')
        res = []
        for c in list(t) + ['']:
            while r.random() < self.p * .3:
                q = r.choice("acdeghijklmopqsvwxyzABCDEFGNRTU0123456789'-+.,:;{}[]()!@#$%^&* ")
                if r.random() < .1:
                    self.raw('\\ud83d'); res.append('\ud83d')
                self.raw('\\'); self.raw(q)
                self.events.append(('escape', self.n - 1)); res.append('\U000f0000' + q)
            if c:
                self.raw(jg.ser_text(r, c, esc) if esc else spell(c)); res.append(c)
        self.raw('"')
        return jg.fix_pairs(''.join(res))
    def value(self, t):
        r = self.r
        esc = 0.05
        if t[0] == 'o':
            self.put('{'); members = {}; first = True
            todo = list(t[1])
            while todo:
                k, v = todo.pop(0)
                if not first: self.put(',')
                first = False
                k = self.text(k, 0)
                self.put(':')
                if k in members:
                    self.events.append(('repeated', self.n - 1)); del members[k]
                v = self.value(v)
                members[k] = v
                while r.random() < self.p * .7:  # repeat a key, maybe this one, with another value
                    k2 = r.choice(list(members))
                    v2 = jg.gen_tree(r, 2, [4], textfn=plain, top=False)
                    if not '\U000f0000' in k2: todo.insert(r.randint(0, len(todo)), (k2, v2))
                    break
            self.put('}')
            return ('o', list(members.items()))
        if t[0] == 'a':
            self.put('['); res = []
            for i, v in enumerate(t[1]):
                if i: self.put(',')
                res.append(self.value(v))
            self.put(']')
            return ('a', res)
        if t[0] == 's': return ('s', self.text(t[1], esc))
        if t[0] == 'l' and r.random() < self.p * 2:
            w = t[1]
            while w == t[1]: w = r.choice([t[1].upper(), t[1].capitalize(), ''.join(r.choice([c, c.upper()]) for c in t[1])])
            self.put(w); self.events.append(('null' if t[1] == 'null' else 'bool', self.n - 1))
            return t
        self.put(t[1])
        return t

def plain(r): return jg.gen_text(r, True)

class C05(CliCheck):
    prop = 'C05'
    quick, thorough = 12000, 300000
    chunk = 50
    rule = ('random documents (one or two inputs) with repeated keys, literals in other letter cases and unknown escapes put at random places, run with and without -W; '
            'malformed documents with -W; and documents viewed, compared and given to a command; non-trivial: at least one tolerated or blocking error')
    assumptions = ['the warning about a true/false may stand on its last letter or on the character after it', 'columns of lines with non-ASCII characters are not compared']
    minimum = {'repeated': 1000, 'bool': 1000, 'null': 500, 'escape': 1000, 'clean': 500, 'blocking': 500, 'two_inputs': 100, 'modes': 50}
    def prepare(self):
        build.build('cli'); build.build('exe'); build.build('ui')
    def setup(self):
        CliCheck.setup(self)
        self.exe = build.build('exe'); self.ui = build.build('ui')
    def case(self, i, r):
        if i % 60 == 1: return self.modes(r)
        if i % 4 == 3: return self.blocking(r)
        n = 2 if r.random() < .12 else 1
        p = r.choice([0, .1, .3, .6])
        style = r.choice(list(jg.WS))
        nl = r.choice(['\n', '\n', '\r', '\r\n'])
        texts, wants, events = [], [], []
        for j in range(n):
            t = jg.gen_tree(r, r.choice([1, 2, 3, 4]), [r.choice([4, 10, 30])], textfn=plain if r.random() < .8 else jg.gen_text)
            if i % 40 == 2: # many members
                m = r.choice([20, 65, 130, 260, 1000])
                t = r.choice([('o', [('k%d' % k, ('l', 'null') if k != m // 2 else t) for k in range(m)]), ('a', [('l', 'true') if k != m // 2 else t for k in range(m)])])
                p = min(p, .1)
            if n > 1 and t[0] not in 'oa': t = ('a', [t])
            w = Writer(r, p, lambda: jg.WS[style](r).replace('\r\n', '\n').replace('\r', '\n').replace('\n', nl))
            wants.append(w.value(t)); w.raw(w.ws())
            texts.append(''.join(w.out)); events.append(w.events)
        opt = opts(r, [b'--compress', b'--ascii', b'--keep-order'])
        data = dict(inputs=texts, options=opt)
        names = []; bad = None
        if r.random() < .1: # then an input with a blocking error
            bad = os.path.join(self.dir, 'bad.json')
            with open(bad, 'wb') as fd: fd.write(r.choice([b'[1,', b'{"a":1,}', b'["\\q" 2]', b'[nul]', b'[TRUE,1}', b'{"a":1,"a":2', b'["abc']))
        if n == 1 and not bad: names = ['STDIN']; run = lambda o: self.run(o, texts[0])
        else:
            for j, x in enumerate(texts):
                f = os.path.join(self.dir, 'in%d.json' % j); names.append(f)
                with open(f, 'wb') as fd: fd.write(x.encode('utf-8'))
            run = lambda o: self.run(o + names + [bad] * bool(bad))
        ns = sum(map(len, events))
        wopt = list(opt); wopt.insert(r.randint(0, len(wopt)), b'-W')
        res = run(wopt)
        if res.status: raise Violation('status', 'ended with status %d: %s' % (res.status, jg.short(res.err, 400)), **data)
        try: ds = diag.parse(res.err.decode('utf-8', 'replace'))
        except ValueError as e: raise Violation('diagnostics', str(e), stderr=res.err, **data)
        if bad:
            data['malformed'] = open(bad, 'rb').read()
            es = [d for d in ds if d[0] == 'Error']; ds = [d for d in ds if d[0] != 'Error']
            if len(es) != 1 or es[0][2] != bad: raise Violation('blocking', 'expected one error about the malformed input: %s' % jg.short(res.err, 300), **data)
        flat = [(names[j], texts[j]) + e for j in range(n) for e in events[j]]
        for k, d in enumerate(ds):
            if d[0] != 'Warning': raise Violation('blocked', 'tolerated errors reported as blocking: %s' % jg.short(res.err, 300), **data)
            if k >= len(flat): break
            name, text, kind, pos = flat[k]
            line, col, upto = diag.position(text, pos)
            if d[2] != name: raise Violation('name', 'warning %d names %s instead of %s' % (k, d[2], name), stderr=res.err, **data)
            if not upto.isascii(): col = d[4]
            if d[3] != line or d[4] not in ((col, col + 1) if kind == 'bool' else (col,)):
                raise Violation('position', 'warning %d (%s) at line %d, col %d; expected line %d, col %d' % (k, kind, d[3], d[4], line, col), stderr=res.err, **data)
        if len(ds) != len(flat): raise Violation('count', '%d warnings for %d tolerated errors (%s)' % (len(ds), len(flat), [x[2] for x in flat][:20]), stderr=res.err, **data)
        out = decode(res.out, **data)
        try:
            docs = layout.raw_docs(out)
            got = [to_tree(d) for d in docs]
        except (ValueError, IndexError) as e: raise Violation('output', 'output cannot be read: %s' % e, stdout=out, **data)
        if len(got) != n: raise Violation('output', '%d documents for %d inputs' % (len(got), n), stdout=out, **data)
        for a, b in zip(wants, got):
            ks = dup(b)
            if ks is not None: raise Violation('members', 'key %r written twice' % ks, stdout=out, **data)
            d = jg.diff(a, b)
            if d: raise Violation('value', d, stdout=out, **data)
        strict = run(opt)
        if strict.status: raise Violation('status', 'ended with status %d: %s' % (strict.status, jg.short(strict.err, 400)), **data)
        if ns == 0:
            if strict != res and not bad: raise Violation('clean', 'a document without errors differs with and without -W', with_W=out, without=strict.out, stderr=strict.err, **data)
        else:
            first = next(j for j in range(n) if events[j])
            if first == 0 and strict.out: raise Violation('strict', 'tolerated errors accepted without -W', stdout=strict.out, **data)
            if not strict.err: raise Violation('strict', 'no diagnostic without -W', stdout=strict.out, **data)
            try: sd = diag.parse(strict.err.decode('utf-8', 'replace'))
            except ValueError as e: raise Violation('diagnostics', str(e), stderr=strict.err, **data)
            if len(sd) != 1 or sd[0][0] != 'Error' or sd[0][2] != names[first]:
                raise Violation('strict', 'without -W: %s' % jg.short(strict.err, 300), **data)
        c = {}
        for _, _, k, _ in flat: c[k] = c.get(k, 0) + 1
        c['clean'] = int(ns == 0); c['two_inputs'] = int(n == 2); c['then_malformed'] = int(bad is not None); c['warnings'] = ns; c['max_warnings'] = ns
        return Case(repr(texts) + repr(opt), ns > 0, c, {'inputs': [t[:300] for t in texts], 'errors': [x[2:] for x in flat][:10]}, 2)
    def modes(self, r):
        """the same warnings, whatever is done with the documents"""
        n = r.choice([1, 2, 2, 3]); names, texts = [], []; cnt = 0; total = 0
        for j in range(n):
            t = jg.gen_tree(r, r.choice([1, 2, 3]), [r.choice([4, 10])], textfn=plain)
            if t[0] not in 'oa': t = ('a', [t])
            w = Writer(r, r.choice([0, .1, .3]), lambda: jg.WS['pretty' if 'pretty' in jg.WS else list(jg.WS)[0]](r).replace('\r', ''))
            w.value(t); w.raw(w.ws())
            names.append('in%d.json' % j); texts.append(''.join(w.out)); total += len(w.events)
            with open(os.path.join(self.dir, names[j]), 'wb') as f: f.write(texts[j].encode('utf-8'))
        opt = [b'-W'] + opts(r, [b'--ascii', b'--keep-order', b'--color=never']); r.shuffle(opt)
        opt = [os.fsdecode(o) for o in opt]
        data = dict(inputs=texts, options=opt)
        self.cli.cwd = self.dir; self.cli.close()
        ref = modes.parse(self.run(opt + names).err)
        self.cli.cwd = None; self.cli.close()
        if len(ref) != total: raise Violation('count', '%d warnings for %d tolerated errors' % (len(ref), total), **data)
        for what in ['view', 'command'] + ['diff'] * (n == 2):
            if what == 'command': st, err, _ = modes.command(self.exe, opt + names, self.dir, self.cli.env)
            else: st, err, _ = modes.viewed(self.ui, opt + names, self.dir, what == 'diff', n)
            if st: raise Violation('status', '%s ends with status %s' % (what, st), stderr=err, **data)
            try: got = modes.parse(err)
            except ValueError as e: raise Violation('diagnostics', '%s: %s' % (what, e), stderr=err, **data)
            if [g[:1] + g[2:] for g in got] != [g[:1] + g[2:] for g in ref]: raise Violation('mode', '%s: %d warnings, %d when printed, or other ones' % (what, len(got), len(ref)), stderr=err, **data)
        return Case(repr(texts) + repr(opt), total > 0, {'modes': 1, 'mode_warnings': total}, {'inputs': [t[:300] for t in texts]}, 3)
    def blocking(self, r):
        import c04
        out = []
        g = c04.C04()
        for _ in range(3):
            b, kind = g.mutant(r)
            want, why = recog.classify_tolerant(b)
            opt = [b'-W'] + opts(r, [b'--compress', b'--keep-order'])
            data = dict(input=b, options=opt, reason=why)
            res = self.run(opt, b)
            if res.status: raise Violation('status', 'ended with status %d: %s' % (res.status, jg.short(res.err, 300)), **data)
            if want == 'reject' and (res.out or b'Error: ' not in res.err and b'EofException' not in res.err):
                raise Violation('tolerated', 'malformed input (%s) accepted with -W' % why, stdout=res.out, stderr=res.err, **data)
            if want == 'accept' and (not res.out or b'Error: ' in res.err): raise Violation('refused', 'refused with -W: %s' % jg.short(res.err, 300), **data)
            out.append(Case(b, want == 'reject', {'blocking': int(want == 'reject')}, {'input': b, 'blocking': why}))
        return out

def dup(t):
    if t[0] == 'o':
        seen = set()
        for k, v in t[1]:
            if k in seen: return k
            seen.add(k)
            d = dup(v)
            if d is not None: return d
    elif t[0] == 'a':
        for v in t[1]:
            d = dup(v)
            if d is not None: return d
    return None

if __name__ == '__main__': sys.exit(main(C05()))
