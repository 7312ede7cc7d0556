"""Runs the viewer on a pseudo terminal under the monitor of harness/ui_shim.cpp, and models what it must show."""
import os, re, sys, pty, subprocess, fcntl, termios, struct, select, signal, socket, time, errno, math, curses
from frame import Violation

class Screen:
    __slots__ = ('rows', 'cols', 'cy', 'cx', 'std', 'text', 'sel', 'hit', 'fg', 'raw')
    def __init__(self, head, data):
        _, self.rows, self.cols, self.cy, self.cx, self.std = head
        n = self.cols
        self.raw = data
        ch = data[0::6]; at = data[1::6]; fg = data[2::6]; bg = data[3::6]
        if b'\xff' in ch: ch = bytes(CODES.get(a | b << 8, 255) if c == 255 else c for c, a, b in zip(ch, data[4::6], data[5::6]))
        self.text = [ch[y*n:(y+1)*n] for y in range(self.rows)]
        rev = bytes(1 if a & 3 == 3 else 2 if a & 3 else 0 for a in at)   # 1: reverse and bold; 2: only one of them
        self.sel = [rev[y*n:(y+1)*n] for y in range(self.rows)]
        self.hit = [bytes(1 if b == 4 else 0 for b in bg[y*n:(y+1)*n]) for y in range(self.rows)]
        self.fg = [fg[y*n:(y+1)*n] for y in range(self.rows)]
    def show(self):
        out = []
        for y in range(self.rows):
            out.append(self.text[y].decode('latin1').rstrip() + ''.join(('   <selected>' if any(x == 1 for x in self.sel[y]) else '', '   <found>' if any(self.hit[y]) else '')))
        return out

# characters of one cell beyond ASCII that documents are made of; on screens each is a byte
WIDE = 'éÉàÀßñÑüÜØøλΛΩωжЖЯя€→·«»☺'
CODES = {ord(c): 128 + i for i, c in enumerate(WIDE)}
_ENC = {ord(c): chr(128 + i) for i, c in enumerate(WIDE)}
def cells(t): return t.translate(_ENC).encode('latin1', 'replace')

class Exited(Exception): pass

class Ui:
    def __init__(self, exe, args, rows=24, cols=80, term='linux', cwd=None, errfile=None, env=None, stdin=None, timeout=30, stdout=None, ctty=True):
        self.timeout = timeout
        self.exited = False; self.status = None; self.out = b''
        self.master, self.slave = os.openpty()
        self.before = None
        self.size(rows, cols, False)
        self.before = termios.tcgetattr(self.slave)
        a, b = socket.socketpair()
        e = {k: v for k, v in os.environ.items() if k not in ('LINES', 'COLUMNS', 'LANG', 'LC_CTYPE')}
        e.pop('TERM', None)
        if term is not None: e['TERM'] = term
        e.update(LC_ALL='C.UTF-8', ESCDELAY='25', VERIF_UI_FD=str(b.fileno()))
        e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:quarantine_size_mb=16:alloc_dealloc_mismatch=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
        if env: e.update(env)
        self.errfile = errfile
        ef = os.open(errfile or '/dev/null', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        b.set_inheritable(True)
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                if ctty: fcntl.ioctl(self.slave, termios.TIOCSCTTY, 0)
                if stdin is not None: os.dup2(os.open(stdin, os.O_RDONLY), 0)
                else: os.dup2(self.slave, 0)
                os.dup2(self.slave if stdout is None else os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600), 1); os.dup2(ef, 2)
                for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP, signal.SIGWINCH, signal.SIGCONT): signal.signal(s, signal.SIG_DFL)
                if cwd: os.chdir(cwd)
                keep = b.fileno()
                for fd in range(3, 256):
                    if fd != keep:
                        try: os.close(fd)
                        except OSError: pass
                os.execve(exe, [b'jsonstroll'] + [x if isinstance(x, bytes) else os.fsencode(x) for x in args], e)
            except BaseException: pass
            os._exit(127)
        self.pid = pid
        b.close(); os.close(ef)
        self.side = a; self.side.setblocking(False)
        os.set_blocking(self.master, False)
        self.buf = b''
        self.waiting = False
        self.screen = None
        self.term = term
    def size(self, rows, cols, sig=True):
        fcntl.ioctl(self.master, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))
        self.dim = (rows, cols)
    def drain(self):
        while True:
            try: d = os.read(self.master, 65536)
            except OSError: return
            if not d: return
            self.out = (self.out + d)[-20000:]
    def wait(self, timeout=None):
        """next screen; None when the program has ended"""
        end = time.time() + (timeout or self.timeout)
        while True:
            if len(self.buf) >= 24:
                head = struct.unpack('<6i', self.buf[:24])
                n = 24 + 6 * head[1] * head[2]
                if len(self.buf) >= n:
                    self.screen = Screen(head, self.buf[24:n]); self.buf = self.buf[n:]
                    self.waiting = True
                    self.drain()
                    return self.screen
            left = end - time.time()
            if left <= 0: raise Violation('hang', 'the viewer neither waits for a key nor ends within %d s' % (timeout or self.timeout), screen=self.screen and self.screen.show())
            fds = [self.side, self.master]
            r = select.select(fds, [], [], left)[0]
            if self.master in r:
                try:
                    d = os.read(self.master, 65536)
                    self.out = (self.out + d)[-20000:]
                except OSError: pass
            if self.side in r:
                try: d = self.side.recv(1 << 20)
                except BlockingIOError: continue
                except ConnectionResetError: d = b''
                if not d: return self.reap()
                self.buf += d
    def reap(self):
        end = time.time() + self.timeout
        while True:
            self.drain()
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p: break
            if time.time() > end:
                os.kill(self.pid, signal.SIGKILL); os.waitpid(self.pid, 0)
                self.exited = True; self.waiting = False
                raise Violation('hang', 'the viewer does not end')
            time.sleep(0.002)
        self.drain()
        self.exited = True; self.waiting = False
        self.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        return None
    def go(self, what=b'k'):
        self.waiting = False
        try: self.side.send(what)
        except OSError: pass
    def key(self, data):
        """type these bytes, as one key"""
        os.write(self.master, data)
        self.go()
        return self.wait()
    def go_wait(self, what):
        self.go(what)
        return self.wait()
    def tick(self):
        """nothing typed for a while"""
        self.go(b'e')
        return self.wait()
    def resize(self, rows, cols):
        self.size(rows, cols)
        return self.tick()
    def kill(self, sig): os.kill(self.pid, sig)
    def stderr(self):
        try: return open(self.errfile, 'rb').read()
        except (OSError, TypeError): return b''
    def left_on(self):
        """modes of the terminal other than those of its line that the program leaves changed: hidden cursor, application keys, alternate screen"""
        now = {}
        for ns, v in re.findall(rb'\x1b\[\?([0-9;]+)([hl])', self.out):
            for n in ns.split(b';'): now[n] = v
        return [what for n, off, what in ((b'25', b'h', 'hidden cursor'), (b'1', b'l', 'application keys'), (b'1049', b'l', 'alternate screen'), (b'47', b'l', 'alternate screen')) if now.get(n, off) != off]
    def close(self):
        if not self.exited:
            try: os.kill(self.pid, signal.SIGKILL)
            except OSError: pass
            try: os.waitpid(self.pid, 0)
            except OSError: pass
            self.exited = True
        for f in (self.master, self.slave):
            try: os.close(f)
            except OSError: pass
        self.side.close()

_keys = {}
NAMES = {'UP': 'kcuu1', 'DOWN': 'kcud1', 'LEFT': 'kcub1', 'RIGHT': 'kcuf1', 'PPAGE': 'kpp', 'NPAGE': 'knp', 'HOME': 'khome', 'BACKSPACE': 'kbs', 'F1': 'kf1', 'DC': 'kdch1'}
_CODE = r'''
import curses, sys
curses.setupterm(sys.argv[1], 1)
for n in sys.argv[2:]: print((curses.tigetstr(n) or b'').hex() or '-')
'''
def keys(term):
    """bytes of the special keys of a terminal (those of linux where it has none)"""
    if term not in _keys:
        out = subprocess.run([sys.executable, '-c', _CODE, term] + list(NAMES.values()), capture_output=True, check=True).stdout.split()
        k = {n: bytes.fromhex(x.decode()) for n, x in zip(NAMES, out) if x != b'-'}
        _keys[term] = k if term == 'linux' else {**keys('linux'), **k}
    return _keys[term]

ESC = {'\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
def shown(t):
    """displayed text of a string"""
    return ''.join(ESC.get(c) or SPELT.get(ord(c)) or ('\\u%04x' % ord(c) if ord(c) < 32 or 0xd800 <= ord(c) < 0xe000 else c) for c in t)
# stand for escapes that --ascii keeps as they are spelt
SPELT = {0xe000 + k: '\\u%04x' % k for k in range(256)}

def number_text(lit):
    """displayed text of a number of these documents: small integers and short decimals"""
    return lit

class Sel:
    """a selectable item: the root, an array element, an object member"""
    __slots__ = ('key', 'val', 'type', 'text', 'parent', 'kids', 'collapsed', 'idx', 'pos', 'ids')
    def empty(self): return not self.kids
    def container(self): return self.type in 'oa'

TYPE = {'s': 's', 'n': 'n'}
class Doc:
    """model of one document in the viewer"""
    def __init__(self, tree, keep=False):
        self.items = []
        self.keep = keep
        self.root = self.build(tree, None, None)
        self.sel = self.root
        self.results = []       # selectables found by the last search, in document order
    def build(self, t, key, parent):
        s = Sel(); s.key, s.parent, s.kids, s.collapsed = key, parent, [], False
        s.pos = len(parent.kids) if parent else 0
        s.idx = len(self.items); self.items.append(s)
        s.type = t[0] if t[0] != 'l' else ('z' if t[1] == 'null' else 'b')
        s.text = shown(t[1]) if t[0] == 's' else t[1] if t[0] in 'nl' else None
        if parent: parent.kids.append(s)
        if t[0] == 'a':
            for x in t[1]: self.build(x, None, s)
        elif t[0] == 'o':
            m = [(shown(k), v) for k, v in t[1]]
            if not self.keep: m.sort(key=lambda e: e[0].encode('utf-8'))
            for k, v in m: self.build(v, k, s)
        return s
    # ---- what is shown
    def lines(self, under=2):
        """[(item, indentation, [(text, colour class)], number of rows as a function of width)]: colour classes k(ey), p(lain), or the type"""
        out = []
        def add(s, x, parts): out.append((s, x, parts))
        todo = [('v', self.root, 0)]
        while todo:
            k, s, x = todo.pop()
            if k == 'c': add(s, x, [('}' if s.type == 'o' else ']', 'p')]); continue
            o, c = ('{', '}') if s.type == 'o' else ('[', ']')
            pre = [(s.key, 'k'), (': ', 'p')] if s.key is not None else []
            if not s.container(): add(s, x, pre + [(s.text, s.type)])
            elif s.collapsed: add(s, x, pre + [(o + ' ... ' + c, 'p')])
            elif s.key is not None and not s.kids: add(s, x, pre + [(o + ' ' + c, 'p')])
            else:
                if pre: add(s, x, pre); x += under
                add(s, x, [(o, 'p')])
                todo.append(('c', s, x))
                for kid in reversed(s.kids): todo.append(('v', kid, x + 4))
        return out
    def visible(self):
        """selectable items shown, in order"""
        out = []; todo = [self.root]
        while todo:
            s = todo.pop(); out.append(s)
            if s.container() and not s.collapsed: todo += reversed(s.kids)
        return out
    # ---- moves: each returns the new selection
    def next_visible(self):
        v = self.visible(); i = v.index(self.sel)
        return v[i+1] if i + 1 < len(v) else self.sel
    def prev_visible(self):
        v = self.visible(); i = v.index(self.sel)
        return v[i-1] if i else self.sel
    def page_up(self):
        s = self.sel
        if not s.parent: return s
        return s.parent.kids[s.pos-1] if s.pos else s.parent
    def page_down(self):
        s = self.sel
        while s.parent:
            if s.pos + 1 < len(s.parent.kids): return s.parent.kids[s.pos+1]
            s = s.parent
        return self.sel
    def next_match(self):
        """(item, whether it wraps) or None"""
        if not self.results: return None
        for s in self.results:
            if s.idx > self.sel.idx: return s, False
        return self.results[0], True
    def unfold(self, s):
        s = s.parent
        while s: s.collapsed = False; s = s.parent
    def describe(self, s):
        p = []
        while s.parent: p.append(ascii(s.key)[:30] if s.key is not None else str(s.pos)); s = s.parent
        return '$' + ''.join('[%s]' % x for x in reversed(p))

FG = {'n': 2, 'b': 1, 'z': 1, 's': 6, 'k': 6}
class Grid:
    """cells of the lines of a document for a width, line by line"""
    def __init__(self, doc, w, color=True):
        self.lines = []    # (item, rows: [text], sel rows, hit rows, fg rows)
        hits = set(id(s) for s in doc.results)
        for s, x, parts in doc.lines():
            text = ' ' * x; sel = [0] * x; hit = [0] * x; fg = [-1] * x
            S = 1 if s is doc.sel else 0
            # brackets of a container under a key, or of one found, are not part of what was found
            H = 1 if id(s) in hits and color and (not s.container() or parts[0][1] == 'k') else 0
            for t, c in parts:
                text += t
                sel += [S] * len(t); hit += [H] * len(t)
                fg += [(7 if H else FG.get(c, -1)) if color else -1] * len(t)
            n = max(1, math.ceil(len(text) / w))
            pad = n * w - len(text)
            text += ' ' * pad; sel += [0] * pad; hit += [0] * pad; fg += [-1] * pad
            tb = cells(text)
            self.lines.append((s, [tb[i*w:(i+1)*w] for i in range(n)], [bytes(sel[i*w:(i+1)*w]) for i in range(n)], [bytes(hit[i*w:(i+1)*w]) for i in range(n)], [fg[i*w:(i+1)*w] for i in range(n)]))
        self.w = w
    def rows(self, top, h):
        """h rows from a line on"""
        t, s, m, f = [], [], [], []
        for l in self.lines[top:]:
            if len(t) >= h: break
            t += l[1]; s += l[2]; m += l[3]; f += l[4]
        del t[h:], s[h:], m[h:], f[h:]
        while len(t) < h:
            t.append(b' ' * self.w); s.append(bytes(self.w)); m.append(bytes(self.w)); f.append([-1] * self.w)
        return t, s, m, f
    def shown(self, top, h, item):
        """whether a line of the item begins within h rows from a line on"""
        y = 0
        for l in self.lines[top:]:
            if y >= h: return False
            if l[0] is item: return True
            y += len(l[1])
        return False
