"""Client of harness/api.cpp."""
import os, struct, subprocess, tempfile, select
from frame import Violation

class Api:
    def __init__(self, exe, dir, timeout=120, name='api'):
        self.name = name
        self.exe, self.dir, self.timeout, self.p = exe, dir, timeout, None
    def start(self):
        e = dict(os.environ); e['LC_ALL'] = 'C.UTF-8'
        e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:quarantine_size_mb=32:alloc_dealloc_mismatch=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
        self.err = open(os.path.join(self.dir, self.name + '.err'), 'w+b')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e)
    def call(self, *fields):
        if not self.p: self.start()
        fields = [x if isinstance(x, bytes) else str(x).encode('utf-8', 'surrogatepass') for x in fields]
        m = b''.join(struct.pack('<I', len(x)) + x for x in fields)
        try:
            self.p.stdin.write(struct.pack('<I', len(m)) + m); self.p.stdin.flush()
            h = self.read(4)
            a = self.read(struct.unpack('<I', h)[0]).decode('latin1')
            if a == 'unsupported': raise RuntimeError('the harness does not compile for %s' % fields[0].decode())
            return a
        except (EOFError, BrokenPipeError):
            st = self.p.wait()
            self.err.seek(0); e = self.err.read()
            self.p = None
            raise Violation('crash', 'the program under test ended with status %d: %s' % (st, e[-1500:].decode('latin1')), call=fields[0], arguments=[x[:3000] for x in fields[1:]], stderr=e[-6000:])
    def read(self, n):
        out = b''
        while len(out) < n:
            if not select.select([self.p.stdout], [], [], self.timeout)[0]:
                self.p.kill(); self.p.wait(); self.p = None
                raise Violation('hang', 'no answer after %d s' % self.timeout)
            b = os.read(self.p.stdout.fileno(), n - len(out))
            if not b: raise EOFError
            out += b
        return out
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p = None

def unhex(h): return b'' if h == '-' else bytes.fromhex(h)
