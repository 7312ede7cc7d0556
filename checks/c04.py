#!/usr/bin/env python3
"""C04: malformed input is reported and never printed; well-formed input is accepted."""
import os, sys, random, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import diag, modes, recog

TOK = ['{', '}', '[', ']', ',', ':', '"a"', '1', 'true']
BADTOK = ['tru', 'truee', 'fals', 'falsee', 'nul', 'nulll', 'True', 'FALSE', 'Null', 'nil', 'undefined', 'NaN', 'Infinity', '-', '+1', '--1', '1-2', '1.2.3', '1e', '1e+', '-e1', '.', '-.', 'e1',
          '1e5.5', '0x10', '1_000', "'a'", '"\\x41"', '"\\u12g4"', '"\\u12"', '"\\u"', '"\\"', '"abc', '"\\uZZZZ"', '"\\u+123"', '"\\u 123"', '"\\u0x1f"', '//c', '/*c*/', '#', ';', '=', '(', ')',
          '<', '>', '!', '@', '$', '%', '^', '&', '*', '+', '?', '`', '~', '|', '\\', 'a', 'Z', '_', '"\\a"', '"\\0"', '"\\U0041"', '"\\ud83d\\u"', '"\\ud83d\\q"', '"\\ud83d\\u12"', '"\\ud83d\\uZZZZ"', '"a""b"', '1 2', 'null null', 'tr ue', 'n ull', '- 1', '1 e5', '"a" "b"']
EXTRA = ['', ' ', '\n', ',', ']', '}', ':', '1', '"x"', '[]', '{', '[', '"', 'garbage', '\\', '/', '\x01', '\xff', 'é', '\n{', '  // comment', ' true', '{"a":', 'tru']

class C04(CliCheck):
    prop = 'C04'
    chunk = 1
    rule = ('every sequence of up to 5 (thorough: 6) tokens of a 9 token alphabet, with and without spaces; random documents truncated, with tokens or bytes removed, added, '
            'replaced, swapped, with malformed tokens, and with trailing text; inputs some of which are malformed viewed, compared and given to a command; the verdict is compared with a reference recogniser that abstains on lenient spellings; '
            'non-trivial: the recogniser does not abstain')
    assumptions = ['a scalar root directly followed by other characters, and lenient spellings, are left unspecified', 'numbers that fit a double']
    minimum = {'accepted': 3000, 'rejected': 20000, 'modes': 500}
    N_EX = sum(9 ** n for n in range(0, 6)); N_EX6 = 9 ** 6
    PER = 200
    @property
    def quick(self): return (self.N_EX + self.PER - 1) // self.PER + 500
    @property
    def thorough(self): return (self.N_EX + self.N_EX6 + self.PER - 1) // self.PER + 15000
    def judge(self, b, opt, c, src='stdin'):
        want, why = recog.classify(b, b'--ascii' in opt)
        data = dict(input=b, options=opt, expected=want, reason=why)
        res = self.run(opt, b)
        if res.status == cli.TIMEOUT: raise Violation('hang', 'does not end', **data)
        if res.status != 0: raise Violation('status', 'ended with status %d; stderr %s' % (res.status, jg.short(res.err, 400)), **data)
        c[want] = c.get(want, 0) + 1
        reported = len(res.err) > 0
        if reported:
            if res.out: raise Violation('printed', 'reported as malformed, but printed %s' % jg.short(res.out, 200), stderr=res.err, **data)
            if res.err.count(b'STDIN') != 1: raise Violation('diagnostics', '%d diagnostics: %s' % (res.err.count(b'STDIN'), jg.short(res.err, 400)), **data)
            if want == 'accept': raise Violation('refused', 'well-formed input refused: %s' % jg.short(res.err, 300), **data)
            c['rejected'] = c.get('rejected', 0) + 1
        else:
            if want == 'reject': raise Violation('accepted', 'malformed input (%s) accepted, printed %s' % (why, jg.short(res.out, 200)), **data)
            if not res.out: raise Violation('silent', 'neither printed nor reported', **data)
            c['accepted'] = c.get('accepted', 0) + 1
        return want != 'either'
    def case(self, i, r):
        c = {}
        total = self.N_EX + (self.N_EX6 if THOROUGH else 0)
        nb = (total + self.PER - 1) // self.PER
        out = []
        if i < nb:
            for j in range(i * self.PER, min(total, (i + 1) * self.PER)):
                k = j; n = 0
                while k >= 9 ** n: k -= 9 ** n; n += 1
                toks = []
                for _ in range(n): toks.append(TOK[k % 9]); k //= 9
                b = (' ' if (j * 2654435761 >> 7) & 1 else '').join(toks).encode()
                c = {'exhaustive': 1}
                nt = self.judge(b, [], c)
                out.append(Case(b, nt, c, {'input': b}))
            return out
        for _ in range(3): out.append(self.modes(r))
        for _ in range(100):
            c = {}
            b, kind = self.mutant(r)
            c['kind_' + kind] = 1
            opt = opts(r, [b'--compress', b'--ascii', b'--keep-order'])
            nt = self.judge(b, opt, c)
            out.append(Case(b + repr(opt).encode(), nt, c, {'input': b, 'options': opt, 'kind': kind}))
        return out
    def prepare(self):
        build.build('cli'); build.build('exe'); build.build('ui')
    def setup(self):
        CliCheck.setup(self)
        self.exe = build.build('exe'); self.ui = build.build('ui')
    def modes(self, r):
        """a malformed input is reported in the same way when documents are to be viewed or compared, and not shown"""
        n = r.choice([1, 2, 2, 3]); files = []; docs = []; bad = None
        for j in range(n):
            b = jg.enc(jg.join(r, jg.tokens(r, jg.gen_tree(r, 2, [4]), 0), 'compact' if 'compact' in jg.WS else list(jg.WS)[0]))
            if r.random() < .6:
                b2, kind = self.mutant(r)
                if len(b2) < 4000 and recog.classify(b2, False)[0] == 'reject': b = b2; bad = j if bad is None else bad
            if recog.classify(b, False)[0] == 'either': b = b'[1]'
            docs.append(b); files.append('in%d.json' % j)
            with open(os.path.join(self.dir, files[j]), 'wb') as f: f.write(b)
        data = dict(inputs=docs, malformed=bad)
        self.cli.cwd = self.dir; self.cli.close()
        ref = self.run(files)
        self.cli.cwd = None; self.cli.close()
        for what in ['view', 'command'] + ['diff'] * (n == 2):
            if what == 'command': st, err, shown = modes.command(self.exe, files, self.dir, self.cli.env)
            else: st, err, shown = modes.viewed(self.ui, files, self.dir, what == 'diff', n)
            if st: raise Violation('status', '%s ends with status %s' % (what, st), stderr=err, **data)
            if err.replace(os.fsencode(self.exe), b'jsonstroll') != ref.err: raise Violation('mode', '%s: %s instead of %s' % (what, jg.short(err, 300), jg.short(ref.err, 300)), **data)
            want = n if bad is None else bad
            if what == 'diff': want = int(bad is None)
            if what != 'command' and shown != want: raise Violation('shown', '%s: %d documents shown, %d expected' % (what, shown, want), **data)
        return Case(repr(docs), bad is not None, {'modes': 1, 'modes_malformed': int(bad is not None)}, {'input': docs[bad or 0]}, 3)
    def mutant(self, r):
        t = jg.gen_tree(r, r.choice([1, 2, 3]), [r.choice([3, 6, 12, 12, 40])])
        if r.random() < .06: # many members
            n = r.choice([10, 17, 33, 65, 130, 260])
            t = r.choice([('o', [('k%d' % k, ('n', str(k)) if k % 7 else t) for k in range(n)]), ('a', [('n', str(k)) if k % 7 else t for k in range(n)])])
        if r.random() < .02: t = jg.deep_tree(r, r.choice([50, 300]))
        if r.random() < .04: # a long text
            s = ('s', ''.join(r.choice('abcdefghij klmn') for _ in range(r.choice([60, 128, 260, 1030, 5000]))))
            t = r.choice([s, ('a', [s]), ('o', [('k', s)]), ('o', [(s[1], t)]), ('a', [s, t]), ('a', [t, s])])
        esc = r.choice([0, .1])
        toks = jg.tokens(r, t, esc)
        style = r.choice(list(jg.WS))
        if r.random() < .08: # one separator or bracket for another
            toks = list(toks); at = [j for j, x in enumerate(toks) if x in '{}[],:']
            if at:
                j = r.choice(at); toks[j] = r.choice([x for x in '{}[],:' if x != toks[j]])
                return jg.enc(jg.join(r, toks, style)), 'separator'
        k = r.random()
        if k < .1: # valid, with something after it
            return jg.enc(jg.join(r, toks, style) + r.choice(EXTRA) + r.choice(EXTRA)), 'trailing'
        if k < .25:
            b = jg.enc(jg.join(r, toks, style)); return b[:r.randint(0, len(b))], 'truncated'
        if k < .45:
            toks = list(toks)
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                p = r.randrange(len(toks)) if toks else 0
                op = r.choice(['del', 'ins', 'rep', 'swap', 'dup'])
                if op == 'ins' or not toks: toks.insert(p, r.choice(TOK + ['"k"', '0', 'null']))
                elif op == 'del': del toks[p]
                elif op == 'rep': toks[p] = r.choice(TOK + ['"k"', '0', 'null'])
                elif op == 'dup': toks.insert(p, toks[p])
                else:
                    q = r.randrange(len(toks)); toks[p], toks[q] = toks[q], toks[p]
            return jg.enc(jg.join(r, toks, style)), 'tokens'
        if k < .65:
            toks = list(toks)
            p = r.randrange(len(toks) + 1)
            vals = [j for j, x in enumerate(toks) if x not in '{}[],:']
            if r.random() < .75 and vals: toks[r.choice(vals)] = r.choice(BADTOK)
            elif r.random() < .5: toks.insert(p, r.choice(BADTOK))
            else: toks = [r.choice(BADTOK)]
            return jg.enc(jg.join(r, toks, style)), 'badtoken'
        if k < .72: # repeated key
            objs = []
            def clone(t):
                if t[0] == 'o' and t[1]:
                    items = [(kk, clone(v)) for kk, v in t[1]]
                    objs.append(items); return ('o', items)
                if t[0] == 'a': return ('a', [clone(v) for v in t[1]])
                return t
            t = clone(t)
            if objs:
                o = r.choice(objs); kk = r.choice(o)[0]
                o.insert(r.randrange(len(o) + 1), (kk, ('n', '7')))
            return jg.enc(jg.join(r, jg.tokens(r, t, 0), style)), 'repeated'
        if k < .95:
            b = bytearray(jg.enc(jg.join(r, toks, style)))
            for _ in range(r.choice([1, 1, 2, 4])):
                p = r.randrange(len(b) + 1)
                op = r.choice(['del', 'ins', 'rep', 'flip', 'cut'])
                ch = r.choice(b'{}[],:"\\/0123456789.eE+-tfnu \n\t') if r.random() < .7 else r.randrange(256)
                if op == 'ins' or p >= len(b): b.insert(p, ch)
                elif op == 'del': del b[p]
                elif op == 'rep': b[p] = ch
                elif op == 'flip': b[p] ^= 1 << r.randrange(8)
                else: del b[p:p + r.randint(1, 6)]
            return bytes(b), 'bytes'
        n = r.randint(0, 14)
        return jg.enc(jg.join(r, [r.choice(TOK + ['"b"', '"c"', 'null', '-1.5e3', '[]', '{}']) for _ in range(n)], style)), 'random'

if __name__ == '__main__': sys.exit(main(C04()))
