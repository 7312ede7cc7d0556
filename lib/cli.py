"""Client of the fork server: runs the program's main() on one case."""
import os, struct, subprocess
from collections import namedtuple
Result = namedtuple('Result', 'status out err')
TIMEOUT = -1000

class Cli:
    def __init__(self, exe, env=None, cwd=None):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith('LC_') or k == 'LANG':
                del e[k]
        e['LC_ALL'] = 'C.UTF-8'
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:handle_abort=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
        e.update(env or {})
        self.exe, self.env, self.cwd = exe, e, cwd
        self.p = None
        self.count = 0
    def _start(self):
        self.p = subprocess.Popen(start_new_session=True, args=[self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env, cwd=self.cwd)
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p.stdout.close()
            self.p = None
    def _read(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise RuntimeError('fork server died')
        return b
    def run1(self, args, stdin=b'', timeout=20.0):
        if not self.p:
            self._start()
        self.count += 1
        args = [b'jsonstroll'] + [a if isinstance(a, bytes) else os.fsencode(a) for a in args]
        m = [struct.pack('<II', int(timeout * 1000), len(args))]
        for a in args:
            m.append(struct.pack('<I', len(a))); m.append(a)
        m.append(struct.pack('<I', len(stdin))); m.append(stdin)
        self.p.stdin.write(b''.join(m)); self.p.stdin.flush()
        st, = struct.unpack('<i', self._read(4))
        n, = struct.unpack('<I', self._read(4)); out = self._read(n)
        n, = struct.unpack('<I', self._read(4)); err = self._read(n)
        return Result(st, out, err)
    def run(self, args, stdin=b'', timeout=20.0):
        """a timeout is retried once, with more time, before it is believed"""
        r = self.run1(args, stdin, timeout)
        if r.status == TIMEOUT:
            r = self.run1(args, stdin, timeout * 4)
        return r
