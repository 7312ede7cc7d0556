#!/usr/bin/env python3
"""C10: an external diff gets one private file per input and leaves none behind."""
import os, re, sys, random, subprocess, struct, shutil, time, signal, resource, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *

VERB = [b'$HOME', b'*', b'a b', b"'", b'"', b'{}x', b'{ }', b'-{}', b'', b'-W', b'--', b'--compress', b'-h', b'`id`', b'$(id)', b'>x', b'|', b'&', b'\\', b'\n', b'{}{}', b'%s', b'--diff', b'nofile', b'-', b'\xc3\xa9', b'--diff-cmd', b';;', b'[1]']

def read_records(path):
    out = []
    if not os.path.exists(path): return out
    b = open(path, 'rb').read(); i = 0
    while i < len(b):
        assert b[i:i+3] == b'REC'
        total, n = struct.unpack_from('<II', b, i + 3); j = i + 11; args = []
        for _ in range(n):
            l, = struct.unpack_from('<I', b, j); j += 4
            a = b[j:j+l]; j += l; st = b[j]; j += 1
            f = None
            if st == 1:
                dev, ino, mode, uid = struct.unpack_from('<QQII', b, j); j += 24
                l, = struct.unpack_from('<I', b, j); j += 4
                f = (dev, ino, mode, uid, b[j:j+l]); j += l
            args.append((a, st, f))
        out.append(args); i += total
    return out

def end(p):
    try: os.killpg(p.pid, 9)
    except OSError: pass
    p.communicate()

class C10(CliCheck):
    prop = 'C10'
    quick, thorough = 6000, 100000
    chunk = 20
    rule = ('random inputs (1 to 4 files whose paths may end alike, standard input, arguments), options, command arguments and outcomes (exit status, signal, missing, not executable, '
            'files removed or changed by the command, program interrupted by a signal while the command runs or while an input is read); a limit on the size of files; first run plain, then with files, links and directories already standing at the names used; concurrent instances; malformed '
            'inputs; run as an unprivileged user; non-trivial: the command ran or had to be withheld')
    assumptions = ['temporary files are those the user of the run owns in /tmp', 'the program itself is not killed otherwise than by SIGHUP, SIGINT, SIGQUIT or SIGTERM once it has read its first input']
    minimum = {'ran': 800, 'sentinels': 500, 'malformed': 100, 'not_runnable': 100, 'killed': 100, 'concurrent': 50, 'same_suffix': 100, 'interrupted': 300, 'between': 60, 'limited': 60, 'exhausted': 40}
    def prepare(self):
        exe = build.build('exe'); build.build('cli')
        shutil.copy(exe, os.path.join(self.tmp, 'jsonstroll')); os.chmod(os.path.join(self.tmp, 'jsonstroll'), 0o755)
        subprocess.run(['gcc', '-O1', '-w', os.path.join(frame.VERIF, 'harness', 'recorder.c'), '-o', os.path.join(self.tmp, 'recorder')], check=True)
        os.chmod(os.path.join(self.tmp, 'recorder'), 0o755)
    def setup(self):
        CliCheck.setup(self)
        self.uid = 200000 + os.getpid() % 100000    # one user per worker: what it owns in /tmp comes from its runs
        os.chmod(self.dir, 0o755)
        self.work = os.path.join(self.dir, 'u'); os.makedirs(self.work); os.chown(self.work, self.uid, self.uid)
        self.exe = os.path.join(self.tmp, 'jsonstroll'); self.rec = os.path.join(self.tmp, 'recorder').encode()
        self.n = 0
        for p in self.owned(): # of a run that was stopped
            try: os.unlink(p)
            except OSError: pass
    def owned(self):
        out = {}
        for e in os.scandir('/tmp'):
            try:
                st = e.stat(follow_symlinks=False)
                if st.st_uid == self.uid: out[e.path.encode()] = (st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns)
            except OSError: pass
        return out
    def spawn(self, args, mode, log, delay=None, limit=None):
        env = dict(self.cli.env); env['REC_OUT'] = log
        if mode: env['REC_MODE'] = mode
        if delay is not None: env['REC_DELAY'] = str(delay)
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
        return subprocess.Popen([self.exe] + args, preexec_fn=pre if limit is not None else None, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.work, user=self.uid, group=self.uid, extra_groups=[], start_new_session=True)
    def wait(self, p, stdin, data, sig=0):
        try: out, err = p.communicate(stdin, timeout=60)
        except subprocess.TimeoutExpired:
            end(p)
            raise Violation('hang', 'does not end once the command has', **data)
        if p.returncode not in (0, 1, -sig): raise Violation('status', 'ended with status %d: %s' % (p.returncode, jg.short(err, 300)), **data)
        return p.returncode, out, err
    def check_record(self, rec, template, want, data):
        """argv and files of one run of the command; returns the temporary files"""
        groups = 0; it = iter(rec[1:]); temps = []
        argv = [a for a, _, _ in rec]
        data['argv'] = argv
        exp = sum(len(want) if t == b'{}' else 1 for t in template)
        if len(argv) != 1 + exp: raise Violation('argv', 'the command got %d arguments, expected %d' % (len(argv) - 1, exp), **data)
        if argv[0] != self.rec: raise Violation('argv', 'command is %r' % argv[0], **data)
        first = None
        for t in template:
            if t != b'{}':
                a, st, f = next(it)
                if a != t: raise Violation('argv', 'argument %r became %r' % (t, a), **data)
                continue
            group = [next(it) for _ in want]
            if first is None: first = [g[0] for g in group]
            elif first != [g[0] for g in group]: raise Violation('argv', 'the files of two {} differ', **data)
            for w, (a, st, f) in zip(want, group):
                if st != 1: raise Violation('file', '%r is not a regular file while the command runs' % a, **data)
                if f[3] != self.uid or f[2] & 0o077: raise Violation('access', '%r is accessible to others (mode %o)' % (a, f[2] & 0o7777), **data)
                if f[4] != w: raise Violation('content', '%r holds %s, expected %s' % (a, jg.short(f[4], 200), jg.short(w, 200)), **data)
            if len(set(g[0] for g in group)) != len(group) or len(set(g[2][:2] for g in group)) != len(group):
                raise Violation('shared', 'two inputs share a temporary file', **data)
        return first or []
    def case(self, i, r):
        self.n += 1
        w = os.path.join(self.work, 'c%d' % self.n); os.makedirs(w)
        os.chown(w, self.uid, self.uid)
        try: return self.case1(i, r, w)
        finally:
            for p, st in self.owned().items():
                if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p, ignore_errors=True)
                else:
                    try: os.unlink(p)
                    except OSError: pass
            shutil.rmtree(w, ignore_errors=True)
    def case1(self, i, r, w):
        n = r.choice([1, 2, 2, 2, 3, 4])
        suffix = r.choice([None, None, 'data/quite-a-long-name.json', 'a'])
        opt = opts(r, [b'--compress', b'--ascii', b'--keep-order', b'-W', b'--color=never'], .25)
        kinds = ['file'] * n
        if r.random() < .15: n = 1; kinds = ['stdin']
        elif r.random() < .15: kinds[-1] = 'args'
        docs = []; malformed = False
        for j in range(n):
            t = jg.gen_tree(r, r.choice([1, 2, 3]), [r.choice([3, 10, 30])])
            b = jg.serialise(r, t).replace('\0', '').encode('utf-8')
            if r.random() < .03: b = b'[' + b','.join(b'"%d padding"' % k for k in range(3000)) + b']'
            docs.append(b)
        if r.random() < .15:
            docs[r.randrange(n)] = r.choice([b'', b'[1', b'{"a":}', b'[1,]', b'tru', b'"x', b'{"a":1 "b":2}']); malformed = True
        stdin = b''; files = []
        for j, k in enumerate(kinds):
            if k == 'stdin': stdin = docs[j]
            elif k == 'file':
                p = os.path.join(w, 'd%d' % j if suffix else '', suffix or r.choice(['in%d.json', '%d', 'x y%d', "q'%d.json", 'é%d']) % j)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f: f.write(docs[j])
                files.append(p.encode())
        template = [r.choice(VERB) for _ in range(r.choice([0, 0, 1, 2, 5]))]
        for _ in range(r.choice([1, 1, 1, 1, 2, 0])): template.insert(r.randint(0, len(template)), b'{}')
        how = r.choice(['0', '0', '1', '2', '3', '77', '255', 'sig9', 'sig15', 'sig11', 'sig2', 'sig6', 'remove', 'remove-0', 'remove-0', 'remove-1', 'modify', 'missing', 'notexec', 'directory', 'empty', 'badinterp', 'psig15', 'psig2', 'gsig2', 'gsig3', 'gsig1', 'psig1', 'psig3'])
        cmd = [self.rec]
        if how == 'missing': cmd = [r.choice([b'/nonexistent/diff', b'no-such-command-here', b''])]
        elif how in ('notexec', 'badinterp'):
            p = os.path.join(w, 'script'); open(p, 'w').write('#!/nonexistent/interpreter\n'); os.chmod(p, 0o644 if how == 'notexec' else 0o755); cmd = [p.encode()]
        elif how == 'directory': cmd = [w.encode()]
        elif how == 'empty': cmd = []; template = []
        runnable = cmd == [self.rec]
        sig = int(how[4:]) if how[1:4] == 'sig' else 0
        args = list(opt); at = r.randint(0, len(args)) if args else 0
        args[at:at] = [b'--diff-cmd'] + cmd + template + [b';']
        pos = r.choice([0, len(args)])
        if pos == 0: args = files + args
        else: args = args + files
        if 'args' in kinds: args += [b'--'] + docs[-1].split(b' ')
        singles = [self.run(opt, d) for d in docs]
        want = [s.out for s in singles]
        data = dict(arguments=args, documents=[d[:2000] for d in docs], command_outcome=how)
        mode = how if runnable else None
        before = self.owned()
        if before: raise RuntimeError('unexpected files of uid %d in /tmp: %r' % (self.uid, before))
        c = {'ran': 0, 'malformed': int(malformed), 'not_runnable': int(not runnable), 'killed': int(how.startswith('sig')), 'interrupted': int(sig > 0 and not malformed), 'same_suffix': int(bool(suffix) and n > 1)}
        def one(sentinels, rounds):
            log = os.path.join(w, 'log%d' % rounds)
            p = self.spawn(args, mode, log)
            st, out, err = self.wait(p, stdin, data, sig)
            recs = read_records(log)
            data['stderr'] = err
            names = []
            if malformed:
                if recs: raise Violation('ran', 'the command was run though an input is malformed', **data)
                if not err: raise Violation('silent', 'malformed input not reported', **data)
            elif runnable:
                if len(recs) != 1: raise Violation('runs', 'the command was run %d times' % len(recs), **data)
                names = self.check_record(recs[0], template, want, data)
                if any(x in sentinels for x in names): raise Violation('reused', 'an existing path was used: %r' % [x for x in names if x in sentinels], **data)
            after = self.owned()
            left = [k for k in after if k not in sentinels]
            if left: raise Violation('left', 'temporary files left behind: %r' % left, **data)
            for s, (st0, content, victim) in sentinels.items():
                if s not in after: raise Violation('removed', 'existing %s %r was removed' % (st0[4], s), **data)
                a = after[s]
                if (a[0], a[1]) != st0[:2]: raise Violation('replaced', 'existing %s %r was replaced' % (st0[4], s), **data)
                if content is not None and open(s, 'rb').read() != content: raise Violation('overwritten', 'existing %s %r was overwritten' % (st0[4], s), **data)
                if victim and victim[1] is None and os.path.lexists(victim[0]): raise Violation('followed', 'a link at %r was followed, %r created' % (s, victim[0]), **data)
                if victim and victim[1] is not None and open(victim[0], 'rb').read() != victim[1]: raise Violation('followed', 'a link at %r was followed, its target overwritten' % s, **data)
            return names
        if runnable and not malformed and not sig and kinds == ['file'] * n and r.random() < .12:
            if n > 1 and r.random() < .6: self.between(r, w, files, args, mode, template, want, docs, data); c['between'] = 1
            elif max(map(len, want)) > 2: self.limited(r, w, args, mode, template, want, data); c['limited'] = 1
        names = one({}, 0)
        c['ran'] += int(bool(runnable and not malformed))
        if names and n > 1 and kinds == ['file'] * n and not sig and r.random() < .08:
            if self.exhausted(r, w, files, args, mode, template, want, data): c['exhausted'] = 1
        sentinels = {}
        # second and third run: the names used before are taken, by something that must survive
        for rounds in range(1, r.choice([1, 2, 3])):
            if not names and not sentinels: break
            for k, s in enumerate(names):
                if os.path.lexists(s): continue     # taken by another instance (standard input and arguments have the same name for all)
                kind = r.choice(['file', 'file', 'link', 'dangling', 'directory', 'noaccess', 'empty', 'hardlink'])
                content = victim = None
                if kind in ('file', 'empty', 'noaccess'):
                    content = b'' if kind == 'empty' else b'precious %d' % k
                    try: fd = os.open(s, os.O_WRONLY | os.O_CREAT | os.O_EXCL)
                    except FileExistsError: continue
                    with open(fd, 'wb') as f: f.write(content)
                    os.chmod(s, 0o600 if kind != 'noaccess' else 0)
                elif kind == 'directory':
                    try: os.mkdir(s)
                    except FileExistsError: continue
                else:
                    v = os.path.join(w, 'victim%d-%d' % (rounds, k)); victim = (v, None if kind == 'dangling' else b'victim')
                    if kind != 'dangling':
                        with open(v, 'wb') as f: f.write(b'victim')
                        os.chown(v, self.uid, self.uid)
                    try:
                        if kind == 'hardlink': os.link(v, s)
                        else: os.symlink(v, s)
                    except FileExistsError: continue
                os.chown(s, self.uid, self.uid, follow_symlinks=False)
                a = self.owned()[s]
                sentinels[s] = ((a[0], a[1], None, None, kind), content, victim)
                c['sentinels'] = c.get('sentinels', 0) + 1; c['s_' + kind] = 1
            names = one(sentinels, rounds)
            c['ran'] += int(bool(runnable and not malformed))
        if runnable and not malformed and r.random() < .2 and b'{}' in template: # several instances at once
            k = r.randint(2, 6); ps = []
            delay = r.choice([0, 2, 10])
            for j in range(k):
                ps.append(self.spawn(args, mode if mode != 'modify' and not mode.startswith('remove') else '0', os.path.join(w, 'clog%d' % j), delay))
                if r.random() < .5: time.sleep(r.random() * .01)
            ths = [threading.Thread(target=lambda p=p: self._feed(p, stdin)) for p in ps]
            for t in ths: t.start()
            for t in ths: t.join()
            seen = {}
            for j, p in enumerate(ps):
                if p.returncode not in (0, 1, -sig): raise Violation('status', 'one of %d instances ended with status %r' % (k, p.returncode), **data)
                recs = read_records(os.path.join(w, 'clog%d' % j))
                if len(recs) != 1: raise Violation('runs', 'with %d instances at once, a command was run %d times' % (k, len(recs)), **data)
                self.check_record(recs[0], template, want, dict(data, instances=k))
            left = [x for x in self.owned() if x not in sentinels]
            if left: raise Violation('left', 'temporary files left behind by %d instances: %r' % (k, left), **data)
            c['concurrent'] = 1; c['ran'] += k
        return Case(repr(args) + repr(docs) + how, bool(c['ran'] or malformed or not runnable), c, {'arguments': args, 'outcome': how}, max(1, c['ran']))
    def between(self, r, w, files, args, mode, template, want, docs, data):
        """the program is interrupted while it reads one of its inputs, others being read already"""
        k = r.randrange(1, len(files)); path = files[k]; sig = r.choice([1, 2, 3, 15])
        os.unlink(path); os.mkfifo(path, 0o644); os.chown(path, self.uid, self.uid)
        log = os.path.join(w, 'logb'); data = dict(data, interrupted_at_input=k, signal=sig)
        p = self.spawn(args, mode, log)
        try:
            end_ = time.time() + 30; fd = -1
            while fd < 0:
                try: fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
                except OSError:
                    if p.poll() is not None or time.time() > end_: break
                    time.sleep(.001)
            if fd >= 0:
                end_ = time.time() + .3
                while len(self.owned()) < k and time.time() < end_ and p.poll() is None: time.sleep(.001)
                if p.poll() is None: p.send_signal(sig)
                os.set_blocking(fd, True)
                try:
                    with open(fd, 'wb') as f: f.write(docs[k])
                except BrokenPipeError: pass
            st, out, err = self.wait(p, b'', data, sig)
        finally:
            if p.poll() is None: end(p)
        os.unlink(path)
        with open(path, 'wb') as f: f.write(docs[k])
        data['stderr'] = err
        self.rare(log, template, want, data)
    def limited(self, r, w, args, mode, template, want, data):
        """a temporary file cannot be written entirely"""
        limit = r.randrange(0, max(map(len, want)))
        log = os.path.join(w, 'logl'); data = dict(data, size_limit=limit)
        p = self.spawn(args, mode, log, None, limit)
        st, out, err = self.wait(p, b'', data)
        data['stderr'] = err
        if not self.rare(log, template, want, data) and not err: raise Violation('silent', 'the command is not run, for no given reason', **data)
    def exhausted(self, r, w, files, args, mode, template, want, data):
        """all names a temporary file may get are taken (if they are numbered)"""
        # inputs of names that look like no other: others may get the same temporary files
        mine = [os.path.join(w, '%06x%05x%d' % (os.getpid() & 0xffffff, self.n, j)).encode() for j in range(len(files))]
        for f, m in zip(files, mine): shutil.copyfile(f, m)
        args = [mine[files.index(a)] if a in files else a for a in args]; data = dict(data, arguments=args)
        log = os.path.join(w, 'logp')
        st, out, err = self.wait(self.spawn(args, mode, log), b'', data)
        recs = read_records(log)
        if len(recs) != 1: raise Violation('runs', 'the command was run %d times' % len(recs), **data)
        names = self.check_record(recs[0], template, want, data)
        if not names: return False
        k = r.randrange(len(names)); name = names[k]
        m = re.match(rb'(.*[^0-9])0([^0-9]*)$', name)
        if not m or os.path.lexists(name): return False
        taken = []
        try:
            for j in range(1100):
                p = m.group(1) + b'%d' % j + m.group(2)
                try: os.close(os.open(p, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o600)); taken.append(p)
                except FileExistsError: pass
            log = os.path.join(w, 'loge'); data = dict(data, names_taken=name)
            st, out, err = self.wait(self.spawn(args, mode, log), b'', data)
            data['stderr'] = err
            if not self.rare(log, template, want, data) and not err: raise Violation('silent', 'the command is not run, for no given reason', **data)
            for p in taken:
                try:
                    if os.stat(p).st_size: raise Violation('overwritten', 'existing file %r was overwritten' % p, **data)
                except FileNotFoundError: raise Violation('removed', 'existing file %r was removed' % p, **data)
        finally:
            for p in taken:
                try: os.unlink(p)
                except OSError: pass
        return True
    def rare(self, log, template, want, data):
        """the command ran as it should or not at all; nothing is left"""
        recs = read_records(log)
        if len(recs) > 1: raise Violation('runs', 'the command was run %d times' % len(recs), **data)
        if recs: self.check_record(recs[0], template, want, data)
        left = list(self.owned())
        if left: raise Violation('left', 'temporary files left behind: %r' % left, **data)
        return bool(recs)
    def _feed(self, p, stdin):
        try: p.communicate(stdin, timeout=60)
        except subprocess.TimeoutExpired: end(p)

if __name__ == '__main__': sys.exit(main(C10()))
