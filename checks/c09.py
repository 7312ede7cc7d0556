#!/usr/bin/env python3
"""C09: arguments decide what is read and printed, independently of its source."""
import os, sys, random, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import ui

PLAIN = [b'--compress', b'--ascii', b'--keep-order', b'-W', b'--color', b'--color=always', b'--color=never']
BADOPT = [b'-x', b'-', b'---', b'--asci', b'--asciii', b'--ASCII', b'-w', b'-WW', b'-V', b'-H', b'--versions', b'--colour', b'--compress=1', b'--keep_order', b'--diff-cm', b'-hv', b'--diffs', b'-c', b'--unicode', b'-1', b'--keep-order=']
BADCOLOR = [b'--color=', b'--color=auto', b'--color=Always', b'--color=never ', b'--color=alway', b'--color==never', b'--color=0']

class C09(CliCheck):
    prop = 'C09'
    quick, thorough = 12000, 250000
    chunk = 50
    rule = ('the same random document through file, standard input (also in random chunks through a pipe to the real program) and arguments; several inputs, some bad; '
            'random command lines with good and bad options, compared with a model of the arguments; non-trivial: at least two arguments or sources')
    assumptions = ['a file is the same as another if its path is spelt alike', 'text given as arguments holds no NUL']
    minimum = {'sources': 1000, 'chunked': 100, 'several': 1000, 'bad_input': 300, 'arguments': 1000, 'errors': 500, 'help': 50, 'version': 50, 'diff_arity': 50, 'terminal': 100}
    def prepare(self):
        build.build('cli'); build.build('exe'); build.build('ui')
    def setup(self):
        CliCheck.setup(self)
        self.cli.cwd = self.dir    # for the names spelt from there
        self.exe = build.build('exe'); self.ui = build.build('ui')
        self.usage = self.run([b'-h']); self.version = self.run([b'-v'])
    def file(self, name, data, relative=False):
        p = os.path.join(self.dir, name)
        with open(p, 'wb') as f: f.write(data)
        return name.encode() if relative else p.encode()
    def doc(self, r):
        t = jg.gen_tree(r, r.choice([1, 2, 3]), [r.choice([3, 10, 30])])
        s = jg.serialise(r, t)
        if t[0] not in 'oa' and r.random() < .8: return self.doc(r)
        return s.replace('\0', '')
    def case(self, i, r):
        if i == 0: self.informative()
        if i % 40 == 7: return self.terminal(r)
        k = i % 10
        if k < 4: return self.sources(r, chunked=(i % 60 == 0))
        if k < 7: return self.several(r)
        return self.arguments(r)
    def informative(self):
        for a, res in ((b'-h', self.usage), (b'--help', self.run([b'--help'])), (b'-v', self.version), (b'--version', self.run([b'--version']))):
            if res.status != 0 or not res.out or res.err: raise Violation('info', '%s ends with status %d and prints %r' % (a, res.status, res.out[:60]))
        if self.usage.out == self.version.out: raise Violation('info', 'usage and version are the same')
        for a, b in (([b'--help'], self.usage), ([b'--version'], self.version)):
            if self.run(a) != b: raise Violation('info', '%s differs from its short form' % a)
    def mix(self, r, opt, files):
        """options may stand before, between or after the files, whose order is kept"""
        out = []; o = list(opt); f = list(files)
        while o or f:
            if o and (not f or r.random() < .5): out.append(o.pop(0))
            else: out.append(f.pop(0))
        return out
    def sources(self, r, chunked):
        text = self.doc(r); b = text.encode('utf-8')
        words = r.random()
        if words < .3: # text that looks like options
            extra = r.choice(['--compress', '-h', '--', '-W x', '--ascii  --keep-order', ' -v ', '--diff', ';', '--diff-cmd rm {} ;', '--color=bad', '-', ' ', '  '])
            b = b'["' + extra.encode() + b'",' + b.rstrip() + b']'
        opt = opts(r, PLAIN, .25)
        data = dict(document=b, options=opt)
        ref = self.run(opt, b)
        if ref.status or not ref.out: raise Violation('stdin', 'not printed: status %d, %s' % (ref.status, jg.short(ref.err, 300)), **data)
        p = self.file('doc.json', b); st = os.stat(p)
        res = self.run(self.mix(r, opt, [p]), b'"another input"')
        if res != ref: raise Violation('file', 'read from a file: %s' % jg.short(res, 600), stdin=ref.out, **data)
        st2 = os.stat(p)
        if open(p, 'rb').read() != b or (st.st_mtime_ns, st.st_size, st.st_mode, st.st_ino) != (st2.st_mtime_ns, st2.st_size, st2.st_mode, st2.st_ino):
            raise Violation('modified', 'input file modified', **data)
        res = self.run(opt + [b'--'] + b.split(b' '), b'"another input"')
        if res != ref: raise Violation('args', 'read from arguments: %s' % jg.short(res, 600), stdin=ref.out, **data)
        res = self.run(opt + [b'--', b], b'"another input"')
        if res != ref: raise Violation('args', 'read from one argument: %s' % jg.short(res, 600), stdin=ref.out, **data)
        if chunked: self.chunked(r, opt, b, ref, data)
        return Case(b + repr(opt).encode(), True, {'sources': 1, 'chunked': int(chunked), 'args': b.count(b' ') + 1}, {'document': b[:200], 'options': opt}, 4)
    def chunked(self, r, opt, b, ref, data):
        p = subprocess.Popen([self.exe] + opt, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.cli.env)
        try:
            j = 0; sizes = []
            while j < len(b):
                n = r.choice([1, 1, 2, 3, 7, 64, 1000, 5000]) if len(b) < 300 else r.choice([1, 50, 500, 4096])
                if len(sizes) > 60: n = len(b)
                os.write(p.stdin.fileno(), b[j:j+n]); sizes.append(n); j += n
                if r.random() < .5: time.sleep(r.random() * .001)
        except BrokenPipeError: pass
        try: out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill(); raise Violation('hang', 'does not end when fed in chunks', chunks=sizes, **data)
        if p.returncode != ref.status or out != ref.out or err != ref.err.replace(b'jsonstroll: ', os.fsencode(self.exe) + b': '):
            raise Violation('chunks', 'in chunks: status %d, %s' % (p.returncode, jg.short(out, 300)), chunks=sizes, stdin=ref.out, **data)
    def terminal(self, r):
        """on a terminal documents are viewed, one after the other, unless --compress is given"""
        n = r.choice([1, 1, 2, 3]); docs = [self.doc(r).encode('utf-8') for _ in range(n)]
        opt = [b'--compress'] if r.random() < .5 else []
        files = [self.file('t%d.json' % j, d) for j, d in enumerate(docs)]
        how = r.choice(['files', 'files', 'stdin', 'args', 'args'])
        opt += opts(r, [b'--ascii', b'--keep-order', b'-W'], .2); r.shuffle(opt)
        stdin = None
        if how == 'stdin': files, docs, stdin = [], docs[:1], files[0]
        args = self.mix(r, opt, files)
        if how == 'args': args = self.mix(r, opt, files[:-1]) + [b'--', docs[-1]]
        want = b''.join(self.run(opt, d).out for d in docs) if b'--compress' in opt else None
        data = dict(arguments=args, documents=docs)
        u = ui.Ui(self.ui, args, 40, 120, cwd=self.dir, errfile=os.path.join(self.dir, 'terr'), stdin=stdin, timeout=60)
        try:
            s = u.wait(); names = []
            while s is not None and len(names) < n + 2:
                names.append(s.text[0].decode('latin1').rstrip())
                s = u.key(b'q')
            u.drain(); got = u.out
        finally: u.close()
        if u.status != 0 or u.stderr(): raise Violation('terminal', 'status %s, %s' % (u.status, jg.short(u.stderr(), 300)), **data)
        if want is not None:
            if names: raise Violation('terminal', 'viewed in spite of --compress', **data)
            if len(want) < 3000 and got.replace(b'\r\n', b'\n') != want: raise Violation('terminal', 'printed %s' % jg.short(got, 300), expected=want, **data)
        else:
            shown = [os.path.join(self.dir, os.fsdecode(f))[:120] for f in files]
            if how == 'args': shown[-1] = 'ARGS'
            if how == 'stdin': shown = ['STDIN']
            if names != shown: raise Violation('terminal', 'viewed %s instead of %s' % (names, shown), **data)
        return Case(repr(args) + repr(docs), True, {'terminal': 1}, {'arguments': args})
    def several(self, r):
        n = r.randint(2, 4)
        opt = opts(r, PLAIN, .25)
        docs = []; bad = None
        names = r.sample(['a', 'b.json', 'c c.json', 'z', 'é.json', '0', 'A', 'dir.d', "q'", 'STDIN', 'ARGS', 'ARGS.json'], n)
        relative = r.random() < .5
        for j in range(n):
            b = self.doc(r).encode('utf-8')
            if r.random() < .12:
                b = r.choice([b'', b'[', b'{"a":1,}', b'[1 2]', b'tru', b'"abc', b'}', b'{"a":"\\u00"}', b'[1,2', b'  '])
                if bad is None: bad = j
            docs.append(b)
        last_args = r.random() < .3
        files = [self.file(names[j], docs[j], relative) for j in range(n - (1 if last_args else 0))]
        single = [self.run(opt, d) for d in docs]
        args = self.mix(r, opt, files)
        if last_args: args += [b'--'] + docs[-1].split(b' ')
        data = dict(arguments=args, documents=docs)
        path = lambda f: os.path.join(self.dir.encode(), f)
        before = [os.stat(path(f)) for f in files]
        res = self.run(args, b'"standard input"')
        if res.status: raise Violation('several', 'ended with status %d: %s' % (res.status, jg.short(res.err, 300)), **data)
        stop = n if bad is None else bad
        want = b''.join(s.out for s in single[:stop])
        if res.out != want: raise Violation('several', 'printed %s' % jg.short(res.out, 500), expected=want, **data)
        if (bad is None) != (res.err == b''): raise Violation('several', 'diagnostics: %s' % jg.short(res.err, 300), **data)
        if bad is not None:
            name = b'ARGS' if last_args and bad == n - 1 else files[bad]
            if res.err.count(name) != 1 and len(name) > 3 or name not in res.err or any(res.err.count(f) for f in files if len(f) > 3 and f != name and f not in name and name not in f):
                raise Violation('several', 'diagnostic does not name %s: %s' % (name, jg.short(res.err, 400)), **data)
        for f, s, d in zip(files, before, docs):
            f = path(f); s2 = os.stat(f)
            if (s.st_mtime_ns, s.st_ino, s.st_mode) != (s2.st_mtime_ns, s2.st_ino, s2.st_mode) or open(f, 'rb').read() != d: raise Violation('modified', 'input file modified', **data)
        for f in files: os.unlink(path(f))
        return Case(repr(args) + repr(docs), True, {'several': 1, 'bad_input': int(bad is not None), 'inputs': n}, {'arguments': args}, n + 1)
    def arguments(self, r):
        good = [self.file('g%d.json' % j, b'[%d]' % j) for j in range(6)]
        if r.random() < .5:  # names with options in them; and files named like options, which do not make these names of files
            good += [self.file(n, b'[%d]' % (6 + j), True) for j, n in enumerate(['a--color=never', 'b--compress', 'c -- d', 'd-h', 'e--diff-cmd', 'f--color=bad', 'g--diff', 'h-W', ' --ascii', ';', '{}', 'help', '=always'])]
            for n in BADOPT + BADCOLOR: self.file(n.decode(), b'[100]')
        missing = [os.path.join(self.dir, 'missing').encode(), b'', os.path.join(self.dir, 'g0.json', 'x').encode(), b'nofile.json']
        args = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
            k = r.random()
            if k < .35: args.append(r.choice(PLAIN))
            elif k < .6: args.append(r.choice(good))
            elif k < .67: args.append(r.choice(BADOPT))
            elif k < .71: args.append(r.choice(BADCOLOR))
            elif k < .75: args.append(r.choice(missing))
            elif k < .79: args.append(r.choice([b'-h', b'--help']))
            elif k < .83: args.append(r.choice([b'-v', b'--version']))
            elif k < .90: args.append(b'--diff')
            elif k < .95: args += [b'--diff-cmd', b'false'] + r.sample([b'-h', b'{}', b'--ascii', b'-x', b'--', b'nofile', b'--diff-cmd'], r.randint(0, 3)) + ([b';'] if r.random() < .8 else [])
            else: args += [b'--'] + r.sample([b'[5', b']', b'-h', b'--bad', b'-W', b'7'], r.randint(0, 4))
        if r.random() < .06:     # every number of different inputs
            args = r.sample(good, r.randint(0, 6)) + [b'--diff'] * r.choice([1, 1, 1, 2]) + r.sample(PLAIN, r.randint(0, 2))
            r.shuffle(args)
            if r.random() < .3: args += [b'--', b'[5]']
        # the model
        inputs = []; o = dict(diff=False, cmd=False); mode = None; verdict = None; it = iter(args); text = []
        for a in it:
            if mode == 'args': text.append(a); continue
            if mode == 'cmd':
                if a == b';': mode = None
                continue
            if a == b'--': inputs.append(b'ARGS'); mode = 'args'
            elif a in PLAIN: pass
            elif a == b'--diff': o['diff'] = True
            elif a in (b'-h', b'--help'): verdict = 'help'; break
            elif a in (b'-v', b'--version'): verdict = 'version'; break
            elif a == b'--diff-cmd':
                if o['cmd']: verdict = 'error'; break
                o['cmd'] = True; mode = 'cmd'
            elif a.startswith(b'-'): verdict = 'error'; break
            elif a in missing or a in inputs: verdict = 'error'; break
            else: inputs.append(a)
        if verdict is None and o['diff'] and not 2 <= len(inputs) <= 3: verdict = 'arity'
        if verdict is None and (o['diff'] or o['cmd']): return None    # other properties
        data = dict(arguments=args, expected=verdict or 'print')
        res = self.run(args, b'["standard input"]')
        if verdict == 'help' and res != self.usage or verdict == 'version' and res != self.version:
            raise Violation(verdict, '%s' % jg.short(res, 300), **data)
        if verdict == 'error':
            if res.status != 1: raise Violation('errors', 'bad arguments end with status %d' % res.status, stdout=res.out, stderr=res.err, **data)
            if not res.err.strip() or res.out != self.usage.out: raise Violation('errors', 'no message or no usage', stdout=res.out, stderr=res.err, **data)
        if verdict == 'arity':
            if res.status not in (0, 1) or not res.err.strip() or res.out != self.usage.out: raise Violation('arity', jg.short(res, 300), **data)
        if verdict is None:
            comp = b'--compress' in args[:args.index(b'--')] if b'--' in args else b'--compress' in args
            want = []; errs = False
            for n in inputs or [b'STDIN']:
                if n == b'STDIN': x = b'["standard input"]'
                elif n == b'ARGS': x = b' '.join(text)
                else: x = b'[%d]' % good.index(n)
                one = self.run([b'--compress'] if comp else [], x)
                strict = b'-W'
                if one.err: errs = True; break
                want.append(one.out)
            if res.status or res.out != b''.join(want) or bool(res.err) != errs: raise Violation('print', 'status %d, printed %s' % (res.status, jg.short(res.out, 300)), want=b''.join(want), stderr=res.err, **data)
        c = {'arguments': 1, {'error': 'errors', 'arity': 'diff_arity', None: 'printed'}.get(verdict, verdict): 1}
        return Case(repr(args), len(args) > 1, c, {'arguments': args, 'expected': verdict or 'print'})

if __name__ == '__main__': sys.exit(main(C09()))
