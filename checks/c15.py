#!/usr/bin/env python3
"""C15: the viewers survive any keys, resizes and signals, and restore the terminal."""
import os, sys, random, shutil, signal, time, termios, fcntl, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from uicheck import *

SAFE = [bytes([x]) for x in range(256) if x not in (0x03, 0x13, 0x1a, 0x1c)]   # not the keys the terminal itself acts on
NAV = ['UP', 'DOWN', 'LEFT', 'RIGHT', 'PPAGE', 'NPAGE']
PART = [b'\x1b', b'\x1b[', b'\x1bO', b'\x1b[1', b'\x1b[5', b'\x1b[200~', b'\x1b[M !!', b'\xc3', b'\xf0\x9f', b'\x17', b'\x17\x17', b'\x01', b'\x1b\x1b\x1b', b'\x00', b'\x1b[99999999999999m', b'\x1b]0;x\x07', b'\x7f', b'\xff']
PROMPTS = [b'/(/e\n', b'/[/e\n', b'/a*/ei\n', b'/\\\n', b'/\\u\n', b'/\\uD800\n', b'/\\ud83d\\ude00\n', b'/%s%n\n', b'//\n', b'/a/zzz\n', b'/' + b'x' * 300 + b'\n', b'/.*/e\n', b'/a\x1b', b'/\x7f\x7f\n', b'/\xc3\xa9\n', b'/(a|b)+/e\n', b'/a{2/e\n',
           b'/e\n', b'/1\n', b'/o/o\n', b'/a/w\n', b'/e/f\n', b'/ \n', b'/', b'/a', b'/\\']

TERMS = ['xterm', 'xterm-256color', 'vt100', 'vt220', 'screen', 'tmux', 'rxvt', 'ansi', 'xterm-mono', 'cygwin', 'sun', 'dumb', 'vt52']
VALGRIND = shutil.which('valgrind')
class Chaos:
    """one run of a viewer, whatever it shows"""
    def __init__(self, exe, args, r, rows, cols, dir, c, stdin=None, desc=None, memcheck=None, stdout=None, term='linux', locale='C.UTF-8'):
        self.r, self.c, self.args, self.log, self.desc = r, c, args, [], desc
        if memcheck: args = ['-q', '--error-exitcode=98', '--exit-on-first-error=no', '--vgdb=no', exe] + args; exe = memcheck
        self.u = ui.Ui(exe, args, rows, cols, cwd=dir, errfile=os.path.join(dir, 'err'), stdin=stdin, timeout=300 if memcheck else 120, stdout=stdout, term=term, env={'LC_ALL': locale})
        self.k = ui.keys(term)
        self.alive = True; self.stdout = stdout; self.least = 1
    def add(self, k, n=1): self.c[k] = self.c.get(k, 0) + n
    def bad(self, key, detail): raise Violation(key, detail, arguments=self.args, keys=self.log[-300:], size=self.u.dim, documents=self.desc, screen=self.u.screen and self.u.screen.show())
    def guard(self, f, *a):
        try: s = f(*a)
        except Violation as v:
            v.data.update(arguments=self.args, keys=self.log[-300:], size=self.u.dim, documents=self.desc); raise
        if s is None: self.alive = False
        else: self.add('waits')
        return s
    def type(self, data):
        self.log.append(repr(data))
        os.write(self.u.master, data)
        for _ in range(len(data)):
            if not self.pending(): break
            if self.guard(self.u.go_wait, b'k') is None: return None
        self.add('typed', len(data))
        return self.u.screen
    def pending(self): return struct.unpack('i', fcntl.ioctl(self.u.slave, termios.FIONREAD, b'\0\0\0\0'))[0] > 0
    def tick(self):
        self.log.append('tick')
        return self.guard(self.u.tick)
    def resize(self, rows, cols):
        rows = max(rows, self.least); cols = max(cols, self.least)
        if (rows, cols) == self.u.dim: rows += 1
        self.log.append('resize %dx%d' % (rows, cols))
        s = self.guard(self.u.resize, rows, cols)
        self.add('resizes')
        if s is not None and (s.rows, s.cols) != (rows, cols): self.bad('size', 'drawn for %dx%d after a resize to %dx%d' % (s.rows, s.cols, rows, cols))
        return s
    def stop(self):
        """suspended and continued, maybe with another size"""
        self.log.append('stop')
        self.u.kill(signal.SIGSTOP)
        os.waitpid(self.u.pid, os.WUNTRACED)
        if self.r.random() < .4: self.u.size(self.r.randint(5, 40), self.r.randint(20, 100))
        self.u.kill(signal.SIGCONT)
        self.add('suspends')
        s = self.guard(self.u.tick)
        if s is not None and (s.rows, s.cols) != self.u.dim: self.bad('size', 'drawn for %dx%d after continuing with %dx%d' % (s.rows, s.cols, self.u.dim[0], self.u.dim[1]))
    def random(self, n):
        r = self.r
        while n > 0 and self.alive:
            n -= 1
            k = r.random()
            if k < .4:
                key = self.k[r.choice(NAV)]
                for _ in range(r.choice([1, 1, 2, 5, 20])):
                    if self.alive: self.type(key)
            elif k < .55: self.type(r.choice([b'j', b'k', b'h', b'l', b'n', b'N', b'n']))
            elif k < .65: self.type(r.choice(PROMPTS))
            elif k < .72: self.type(r.choice([b'\x17w', b'\x17l', b'\x17h', b'\x17' + self.k['LEFT'], b'\x17' + self.k['RIGHT'], b'\x17\x17']))
            elif k < .78: self.type(r.choice(PART))
            elif k < .84: self.type(b''.join(r.choice([x for x in SAFE if x not in (b'q', b'Q')]) for _ in range(r.choice([1, 2, 5, 30]))))
            elif k < .95:
                self.resize(*r.choice([(24, 80), (r.randint(1, 60), r.randint(1, 150)), (r.randint(1, 6), r.randint(1, 30)), (1, 1), (2, 2), (1, 80), (24, 1), (3, 10), (100, 300)]))
            elif k < .98: self.tick()
            else: self.stop()
    def settle(self, times=1):
        """let it read all that was typed: at last it waits for its time out"""
        for i in range(200):
            t = time.time()
            if not self.alive or self.guard(self.u.go_wait, b'k') is None: return
            if time.time() - t > .1 and not self.pending():
                times -= 1
                if times <= 0: return
    def answers(self):
        """it still answers: / shows the prompt"""
        self.resize(24, 80)
        for data in (b'\x1b', b'x', b'/'):
            if not self.alive: return
            self.log.append(repr(data))
            os.write(self.u.master, data); self.settle()
        if not self.alive: self.bad('answer', 'the viewer ends on Escape x /')
        if not self.u.screen.text[-1].startswith(b'/'): self.bad('answer', 'the viewer does not prompt any more')
        self.add('answers')
    def leave(self, ndocs):
        """Escape, a key that does nothing, q: leaves the document in any state"""
        self.settle()
        if self.alive and self.r.random() < .4: self.answers()
        for i in range(ndocs + 3):
            if i >= ndocs and self.alive: self.settle(3)     # it was slow to read: once more
            if not self.alive: break
            for data in (b'\x1b', b'x', b'q'):
                self.log.append(repr(data))
                os.write(self.u.master, data)
                for _ in range(20):
                    if self.guard(self.u.go_wait, b'k') is None: break
                    if not self.pending(): break
                if not self.alive: break
        for _ in range(8):
            if self.alive: self.tick()
        if self.alive: self.bad('quit', 'the viewer still waits for keys after Escape and q')
        self.ended()
    def signal(self, sig, when):
        self.log.append('signal %d %s' % (sig, when))
        if when == 'waiting':
            self.u.kill(sig)
        elif when == 'busy':
            os.write(self.u.master, self.r.choice([b'j', b'h', b'l', self.k['NPAGE'], b'n']))
            self.u.go(b'k')
            if self.r.random() < .7: time.sleep(self.r.random() * .004)
            self.u.kill(sig)
            self.guard(self.u.wait)
        elif when == 'resize':
            self.u.size(self.r.randint(3, 50), self.r.randint(10, 120)); self.u.kill(sig)
        for _ in range(4):   # the keyboard stays silent
            if self.alive: self.tick()
        self.add('signals')
        if self.alive: self.bad('signal', 'signal %d does not end the display' % sig)
        self.ended()
    def ended(self):
        u = self.u
        if u.status != 0:
            e = u.stderr()
            self.bad('crash' if u.status != 1 else 'status', 'the viewer ended with status %s: %s' % (u.status, e[-2500:].decode('latin1')))
        after = termios.tcgetattr(u.slave)
        if after != u.before: self.bad('terminal', 'the modes of the terminal are %r, were %r' % (after, u.before))
        if u.left_on(): self.bad('terminal', 'the terminal is left with: %s' % ', '.join(u.left_on()))
        if self.stdout:
            o = open(self.stdout, 'rb').read()
            if o: self.bad('stdout', 'the diff viewer writes to standard output: %r' % o[:300])
        self.add('ends')

class C15(UiCheck):
    prop = 'C15'
    variant = 'ui_asan'
    rule = ('sessions of both viewers, built with address and undefined-behaviour sanitizers, on a pseudo terminal: random keys, half sequences, garbage bytes, hostile prompts, resizes down to 1x1, '
            'stop and continue, SIGINT and SIGTERM while waiting, prompting, drawing and resizing, inputs from files and a pipe, malformed inputs among good ones; judged: sanitizer reports, '
            'hangs, size drawn for, end by q and by signals, status, terminal modes; next documents judged to start afresh; runs without a terminal that can be used; non-trivial: at least 20 waits for a key')
    minimum = {'waits': 20000, 'resizes': 800, 'answers': 100, 'memcheck': 5, 'signals': 100, 'ends': 400, 'suspends': 50, 'diff_sessions': 100, 'piped': 20, 'fresh': 50, 'malformed': 10, 'plain_runs': 5, 'redirected': 20, 'other_terminals': 100, 'no_terminal': 8}
    quick, thorough = 1200, 25000
    def prepare(self): build.build('ui_asan'); build.build('ui')
    def setup(self):
        UiCheck.setup(self)
        self.plain = build.build('ui')
    def write(self, name, data):
        with open(os.path.join(self.dir, name), 'wb') as f: f.write(data)
        return name
    def anydoc(self, r, deep=(30, 120, 300)):
        k = r.random()
        if k < .6: t = doc(r, r.choice([10, 40, 80]), maxdepth=r.choice([1, 2, 4, 8, 12]))
        elif k < .8: t = jg.gen_tree(r)
        elif k < .85: t = jg.deep_tree(r, r.choice(deep))
        elif k < .9: t = ('a', [('n', str(i)) for i in range(r.choice([50, 300]))])
        elif k < .95: t = ('s', ''.join(r.choice('abc é中😀\t') for _ in range(r.choice([0, 1, 500, 3000]))))
        else: t = ('o', [('k%d' % i, ('o', [])) for i in range(30)])
        return t, jg.serialise(r, t).encode('utf-8')
    def case(self, i, r):
        c = {}
        m = i % 10
        if m == 9 and i % 50 == 9: return self.black_box(r, c)
        if m == 9 and i % 50 == 19: return self.no_terminal(r, c)
        if m == 8: return self.fresh(r, c)
        rows, cols = r.choice([(24, 80), size(r), size(r), (r.randint(1, 10), r.randint(1, 30))])
        diff = m in (1, 3, 5, 7)
        desc = []; args = []; stdin = None
        n = 2 if diff else r.choice([1, 1, 2, 3])
        bad = None
        base = None
        for j in range(n):
            t, data = self.anydoc(r, (30, 60) if diff else (30, 120, 300))    # scrolling is one row at a time, and slow in the diff view
            if diff and j and r.random() < .7: t = base; data = mutate(r, t)
            base = t
            if not diff and r.random() < .06: data = data[:len(data)//2] if r.random() < .5 else b'{"a":}'; bad = j if bad is None else bad
            desc.append(data[:3000])
            if j == 0 and not diff and n == 1 and r.random() < .25: stdin = self.write('in', data); stdin = os.path.join(self.dir, stdin); c['piped'] = 1
            else: args.append(self.write('doc%d.json' % j, data))
        opts = []
        if diff: opts.append('--diff'); c['diff_sessions'] = 1
        for o in ('--keep-order', '--ascii', '-W', '--color=never'):
            if r.random() < .2: opts.append(o)
        term = r.choice(TERMS) if i % 100 not in (0, 1) and r.random() < .3 else 'linux'
        if term != 'linux': c['other_terminals'] = 1; rows, cols = max(rows, 3), max(cols, 3)
        # now and then the plain build under memcheck, for uninitialised values
        mem = VALGRIND if i % 100 in (0, 1) else None
        if mem: c['memcheck'] = 1
        ch = Chaos(self.plain if mem else self.exe, opts + args, r, rows, cols, self.dir, c, stdin=stdin, desc=desc, memcheck=mem, stdout=os.path.join(self.dir, 'out') if diff and r.random() < .2 else None, term=term, locale=r.choice(['C', 'POSIX', 'xx_YY.UTF-8', '']) if r.random() < .15 else 'C.UTF-8')
        if ch.stdout: c['redirected'] = 1
        if term != 'linux': ch.least = 3     # ncurses itself reads out of bounds on screens of one column of some terminals
        try:
            ch.guard(ch.u.wait)
            sig = r.random() < .35
            ch.random(r.choice([3, 10, 30, 60] if not mem else [10, 20]))
            if not sig and not diff and n > 1 and ch.alive and r.random() < .5:
                ch.type(b'\x1b'); ch.alive and ch.type(b'x'); ch.alive and ch.type(b'q')
                if ch.alive: ch.random(10)
            if sig and ch.alive:
                if r.random() < .3: ch.type(b'/ab')
                elif r.random() < .3: ch.type(b'\x17')
                if ch.alive: ch.signal(r.choice([signal.SIGINT, signal.SIGTERM]), r.choice(['waiting', 'waiting', 'busy', 'resize']))
            elif ch.alive: ch.leave(n)
            else: ch.ended()
            if bad is not None: c['malformed'] = 1
        finally: ch.u.close()
        return Case(repr(desc) + repr(ch.log), c.get('waits', 0) >= 20, c, {'arguments': opts + args, 'keys': ch.log[:40], 'document': desc[0][:200]}, c.get('waits', 0))
    # ---- the next input starts afresh
    def fresh(self, r, c):
        rows, cols = size(r); w0 = min(cols, 60)
        docs = [doc(r, w0) for _ in range(r.choice([2, 3]))]
        rows, cols = fitted(r, docs, w0, rows, cols)
        if r.random() < .4: docs[1] = docs[0]
        self.exe, exe = self.plain, self.exe
        try: s = self.session(r, docs, rows, cols, c=c, keep=r.random() < .5)
        finally: self.exe = exe
        try:
            more = True; first = True
            while more:
                s.nextmatch() if not first else None     # nothing was searched yet
                if not first: s.bad('fresh', 'n finds something in a document that was not searched') if s.msg != 'Pattern not found' else None
                first = False
                position(s, r, r.randint(1, 6)); walk(s, r, 5)
                s.search(list(r.choice(['a', 'e', '1', 'o', 'true']))); walk(s, r, r.choice([0, 5, 20]))
                if r.random() < .3:
                    rows, cols = fitted(r, docs, w0); s.judge_resized(s.resize(rows, cols))
                more = s.quit()
                c['fresh'] = c.get('fresh', 0) + 1
            if termios.tcgetattr(s.ui.slave) != s.ui.before: s.bad('terminal', 'the modes of the terminal are not restored')
        finally: s.close()
        return Case(repr(docs) + repr(s.log), True, c, {'keys': s.log[:40]}, c['keys'])
    # ---- without the monitor: the program as users run it
    def black_box(self, r, c):
        t, data = self.anydoc(r)
        f = self.write('plain.json', data); g = self.write('plain2.json', mutate(r, t))
        args = ['--diff', f, g] if r.random() < .5 else [f]
        how = r.choice(['q', 'INT', 'TERM', 'prompt'])
        u = ui.Ui(self.exe, args, 24, 80, term=r.choice(['linux'] + TERMS), cwd=self.dir, errfile=os.path.join(self.dir, 'err'), env={'VERIF_UI_FD': '-1'})
        try:
            def until(cond, limit):
                end = time.time() + limit
                while time.time() < end:
                    u.drain()
                    if cond(): return True
                    time.sleep(.01)
                return False
            def ended():
                try: p, st = os.waitpid(u.pid, os.WNOHANG)
                except ChildProcessError: return True
                if p: u.exited = True; u.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
                return u.exited
            until(lambda: len(u.out) > 20, 20); time.sleep(.2)
            for _ in range(5):
                os.write(u.master, r.choice([b'j', b'l', b'h', b'n', ui.keys('linux')['NPAGE']])); time.sleep(.03); u.drain()
            if how == 'q': os.write(u.master, b'q')
            else:
                if how == 'prompt': os.write(u.master, b'/abc'); time.sleep(.2)
                u.kill(signal.SIGINT if how != 'TERM' else signal.SIGTERM)
            info = dict(arguments=args, documents=[data[:3000]], how=how)
            if not until(ended, 20): raise Violation('quit', 'the program does not end on %s' % how, **info)
            u.drain()
            if u.status != 0: raise Violation('status', 'the program ended with status %s: %s' % (u.status, u.stderr()[-1500:].decode('latin1')), **info)
            if termios.tcgetattr(u.slave) != u.before: raise Violation('terminal', 'the modes of the terminal are not restored on %s' % how, **info)
            if u.left_on(): raise Violation('terminal', 'the terminal is left with: %s' % ', '.join(u.left_on()), **info)
        finally: u.close()
        c['plain_runs'] = 1
        return Case(repr((data, how, args)), True, c, {'how': how, 'arguments': args})

    # ---- no terminal at all, or an unknown one
    def no_terminal(self, r, c):
        t, data = self.anydoc(r)
        f = self.write('plain.json', data); g = self.write('plain2.json', mutate(r, t))
        how = r.choice(['no controlling', 'no controlling', 'unknown', 'unset', 'three'])     # or three documents, that are not compared yet
        args = ['--diff', f, g] if how == 'three' or r.random() < .6 else [f]
        if how == 'three': args.append(self.write('plain3.json', mutate(r, t)))
        stdin = r.choice([None, '/dev/null', os.path.join(self.dir, f)])
        stdout = os.path.join(self.dir, 'out') if len(args) > 1 and r.random() < .5 else None
        if how == 'no controlling' and not stdin and not stdout: stdin = '/dev/null'
        if len(args) == 1 and stdin and r.random() < .3: args = []; stdin = os.path.join(self.dir, f)
        opts = [o for o in ('--keep-order', '--ascii', '-W', '--color=never') if r.random() < .2]
        term = 'linux' if how in ('no controlling', 'three') else None if how == 'unset' else r.choice(['no-such-terminal', '/', '..', 'x' * 5000, ''])
        info = dict(arguments=opts + args, documents=[data[:3000]], terminal=how, stdin=stdin, stdout=stdout, term=term)
        u = ui.Ui(self.exe, opts + args, 24, 80, term=term, cwd=self.dir, errfile=os.path.join(self.dir, 'err'), stdin=stdin, stdout=stdout, ctty=how != 'no controlling', timeout=60)
        try:
            try: s = u.wait()
            except Violation as v: v.data.update(info); raise
            if s is not None: raise Violation('answer', 'it waits for keys without a terminal to read them from', **info)
            err = u.stderr()
            if u.status not in (0, 1): raise Violation('crash', 'ended with status %s: %s' % (u.status, err[-2500:].decode('latin1')), **info)
            if not err: raise Violation('silent', 'it says nothing', **info)
            if stdout and open(stdout, 'rb').read(): raise Violation('stdout', 'it writes to standard output', **info)
            if termios.tcgetattr(u.slave) != u.before: raise Violation('terminal', 'the modes of the terminal are not restored', **info)
        finally: u.close()
        c['no_terminal'] = 1
        return Case(repr(info), True, c, {'arguments': opts + args, 'terminal': how})

def mutate(r, t):
    """a document close to another"""
    def m(t):
        k = r.random()
        if k < .06: return r.choice([('n', '7'), ('s', 'new text'), ('l', 'null'), ('a', []), ('o', [('z', ('n', '1'))])])
        if t[0] == 'a':
            out = []
            for x in t[1]:
                if r.random() < .06: continue
                if r.random() < .06: out.append(('s', 'inserted'))
                out.append(m(x))
            return ('a', out)
        if t[0] == 'o':
            out = [(k, m(v)) for k, v in t[1] if r.random() > .05]
            if r.random() < .1 and not any(k == 'added key' for k, _ in out): out.append(('added key', ('l', 'true')))
            return ('o', out)
        return t
    return jg.serialise(r, m(t)).encode('utf-8')

if __name__ == '__main__': sys.exit(main(C15()))
