"""A viewer session judged against the model after every key."""
import re
from frame import Violation
import ui
from ui import Ui, Doc, Grid
import searchref

CTRL = {'^' + chr(c + 64): bytes([c]) for c in range(1, 32)}
class Session:
    """docs: [(file name as given, tree)]"""
    def __init__(self, exe, args, docs, rows, cols, keep=False, ascii=False, color=True, term='linux', cwd=None, errfile=None, stdin=None, c=None, timeout=30, tiny=None):
        self.docs, self.keep, self.ascii, self.color = docs, keep, ascii, color
        self.c = c if c is not None else {}
        self.log = []
        self.args = args
        self.ui = Ui(exe, args, *(tiny or (rows, cols)), term, cwd, errfile, stdin=stdin, timeout=timeout)
        self.k = ui.keys(term)
        self.n = -1
        self.msg = None; self.prompt = None
        scr = self.ui.wait()
        if tiny:     # started on a terminal with no room, which then grows
            self.log.append('resize %dx%d' % (rows, cols)); self.count('tiny')
            if scr is not None: scr = self.ui.resize(rows, cols)
        self.next_doc(scr)
    # ---- helpers
    def count(self, k, n=1): self.c[k] = self.c.get(k, 0) + n
    def bad(self, key, detail, **kw):
        s = self.ui.screen
        kw.setdefault('screen', s.show() if s else None)
        kw.setdefault('keys', self.log[-400:]); kw.setdefault('arguments', self.args); kw.setdefault('size', self.ui.dim)
        kw.setdefault('documents', [d if isinstance(d, (bytes, str)) else repr(d)[:3000] for d in self.docs])
        raise Violation(key, detail, **kw)
    def died(self):
        st = self.ui.status; e = self.ui.stderr()
        self.bad('crash' if st not in (0, 1) else 'exit', 'the viewer ended with status %s: %s' % (st, e[-1500:].decode('latin1')), screen=None)
    def next_doc(self, screen):
        self.n += 1
        if screen is None: self.died()
        name, tree = self.docs[self.n]
        self.name = name
        self.doc = Doc(tree, self.keep)
        self.top = 0; self.msg = None
        self.judge(screen, [(self.doc.sel, None)], first=True)
    def dims(self): return self.ui.screen.rows, self.ui.screen.cols
    # ---- judging a screen
    def judge(self, scr, candidates, first=False, what=''):
        """the screen shows the document with one of the candidate selections: [(item, predicate on (old top, new top))]"""
        if scr is None: self.died()
        h, w = scr.rows, scr.cols
        if (h, w) != self.ui.dim: self.bad('size', 'drawn for %dx%d, the terminal is %dx%d' % (h, w, self.ui.dim[0], self.ui.dim[1]))
        self.count('screens')
        name = ui.cells(self.name)[:w]
        if scr.text[0].rstrip(b' ') != name.rstrip(b' '): self.bad('name', 'the first line is %r, expected %r' % (scr.text[0], name))
        H = h - 1
        if self.msg is not None or self.prompt is not None: H -= 1
        want = ('/' + self.prompt) if self.prompt is not None else self.msg
        if want is not None:
            last = scr.text[h-1]
            if len(want) < w and last != ui.cells(want).ljust(w): self.bad('bottom', 'the last line is %r, expected %r' % (last, want))
        obs_t, obs_s, obs_m, obs_f = scr.text[1:1+H], scr.sel[1:1+H], scr.hit[1:1+H], scr.fg[1:1+H]
        reason = None
        for item, pred in candidates:
            self.doc.sel, keep = item, self.doc.sel
            g = Grid(self.doc, w, self.color)
            n = len(g.lines)
            order = [self.top] + [t for t in range(n) if t != self.top]
            for t in order:
                if t >= n: continue
                if g.lines[t][1][0] != obs_t[0] and H > 0: continue
                et, es, em, ef = g.rows(t, H)
                if et != obs_t: reason = reason or ('content', et); continue
                if es != obs_s: reason = ('selection', None); continue
                if pred and not pred(self.top, t): reason = ('scroll', (self.top, t)); continue
                if em != obs_m: self.bad('found', 'the items marked as found are not those searched%s' % what, expected=self.marked(em, obs_t), got=self.marked(obs_m, obs_t), results=[self.doc.describe(x) for x in self.doc.results][:50])
                if [list(x) for x in obs_f] != [[y & 255 for y in x] for x in ef]: self.bad('colour', 'an item is not drawn in the colour of its type', colours=[(y, list(a), b) for y, (a, b) in enumerate(zip(obs_f, ef)) if list(a) != [q & 255 for q in b]][:3])
                # visible: its first line, or the bracket of the container, is among the rows shown
                # (a message may cover it, and an empty text leaves nothing to highlight)
                if not g.shown(t, h - 1, item): reason = ('hidden', None); continue
                self.top = t
                self.state(t, n)
                return t
            self.doc.sel = keep
        exp = ' or '.join(self.doc.describe(i) for i, _ in candidates)
        if reason is None or reason[0] == 'content':
            self.bad('content', 'the screen is not a window of the document%s' % what, expected=self.best(candidates, scr, H), selection=exp)
        if reason[0] == 'hidden': self.bad('hidden', 'the selection (%s) is not on the screen%s' % (exp, what))
        if reason[0] == 'scroll': self.bad('scroll', 'expected selection %s; the window went from line %d to %d%s' % (exp, reason[1][0], reason[1][1], what))
        self.bad('selection', 'expected selection %s is not what is highlighted%s' % (exp, what), highlighted=self.marked(obs_s, obs_t))
    def state(self, top, n):
        if top: self.count('scrolled')
        self.count('states')
    def marked(self, mask, text):
        out = []
        for y, (m, t) in enumerate(zip(mask, text)):
            x = ''.join(chr(c) for c, b in zip(t, m) if b)
            if x: out.append('row %d: %r' % (y + 1, x))
        return out
    def best(self, candidates, scr, H):
        self.doc.sel = candidates[0][0]
        g = Grid(self.doc, scr.cols, self.color)
        return [x.decode('latin1').rstrip() for x in g.rows(min(self.top, len(g.lines) - 1), H)[0]]
    # ---- actions
    def send(self, name, data):
        self.log.append(name)
        self.count('keys')
        return self.ui.key(data)
    def keydata(self, name):
        if name in self.k: return self.k[name]
        if name in CTRL: return CTRL[name]
        return name.encode('latin1')
    MOVES = {'UP': 'up', 'k': 'up', 'K': 'up', 'DOWN': 'down', 'j': 'down', 'J': 'down', 'LEFT': 'left', 'h': 'left', 'H': 'left', 'RIGHT': 'right', 'l': 'right', 'L': 'right', 'PPAGE': 'pup', 'NPAGE': 'pdown'}
    def press(self, name):
        """one key (not q, / or n)"""
        scr0 = self.ui.screen.raw
        scr = self.send(name, self.keydata(name))
        d = self.doc; s = d.sel
        act = self.MOVES.get(name)
        what = ' after key %s' % name
        top0 = self.top
        same = lambda a, b: a == b
        if act is None:
            if scr is None: self.died()
            if scr.raw != scr0: self.bad('other_key', 'the key %s changes the screen' % name)
            self.count('other_keys')
            return
        self.msg_before, self.msg = self.msg, None
        self.count(act); fold = False
        if act == 'up': cand = [(d.prev_visible(), None)]
        elif act == 'down':
            n = d.next_visible()
            # at the bottom of the screen the window may go down first
            cand = [(n, None)]
            if n is not s:
                scr1 = self.ui.dim
                if not Grid(d, scr1[1]).shown(top0, scr1[0] - 1, n): cand.append((s, lambda a, b: b > a))
        elif act == 'left':
            if s.container() and not s.collapsed and (s.kids or not s.parent): s.collapsed = fold = True; cand = [(s, None)]; self.count('collapsed')
            elif s.parent: cand = [(s.parent, None)]
            else: cand = [(s, None)]
        elif act == 'right':
            if s.container() and s.collapsed: s.collapsed = False; fold = True; cand = [(s, None)]; self.count('expanded')
            elif s.container() and s.kids: cand = [(s.kids[0], None)]
            else: cand = [(s, None)]
        elif act == 'pup': cand = [(d.page_up(), None)]
        elif act == 'pdown': cand = [(d.page_down(), None)]
        if cand[0][0] is s and scr is not None and scr.raw == scr0 and not fold:
            self.msg = self.msg_before # nothing happened: what was said may stay
        self.judge(scr, cand, what=what)
        if self.doc.sel is not s: self.count('moved')
    def prefix(self, name, following):
        """a control key and the key that completes the sequence: nothing happens"""
        scr0 = self.ui.screen.raw
        for x in (name, following):
            scr = self.send(x, self.keydata(x))
            if scr is None: self.died()
            if scr.raw != scr0: self.bad('other_key', 'the sequence %s %s changes the screen' % (name, following))
        self.count('sequences')
    def quit(self):
        """leave the document; False when the program has ended"""
        scr = self.send('q', b'q')
        if self.n + 1 < len(self.docs):
            self.next_doc(scr); self.count('documents')
            return True
        if scr is not None: self.bad('quit', 'the viewer waits for another key after q')
        if self.ui.status != 0: self.died()
        return False
    def resize(self, rows, cols, tiny=None):
        if (rows, cols) == self.ui.dim: rows += 1    # the kernel tells of changes only
        if tiny and tiny != self.ui.dim:
            self.log.append('resize %dx%d' % tiny); self.count('tiny')
            if self.ui.resize(*tiny) is None: self.died()
        self.log.append('resize %dx%d' % (rows, cols))
        scr = self.ui.resize(rows, cols)
        self.count('resizes')
        self.msg = None
        if scr is None: self.died()
        return scr
    def judge_resized(self, scr): self.judge(scr, [(self.doc.sel, None)], what=' after a resize')
    # ---- search
    def search(self, typed, end='\n', keyset=None):
        """typed: list of keys at the prompt; ends with Enter, or Escape"""
        self.begin_prompt()
        buf = ''
        for x in typed:
            if x == 'BACKSPACE': data = self.k['BACKSPACE']
            elif x == 'DEL': data = b'\x7f'
            elif x == '^H': data = b'\b'
            elif x in self.k: data = self.k[x]
            elif ord(x) > 127:
                data = x.encode('utf-8')
                for z in data[:-1]: self.send('prompt:%02x' % z, bytes([z]))    # a part of a character
                data = data[-1:]; self.count('typed_wide')
            else: data = x.encode('latin1')
            scr = self.send('prompt:' + x, data)
            if x in ('BACKSPACE', 'DEL', '^H'): buf = buf[:-1]; self.count('backspaces')
            elif x in self.k: pass
            else: buf += x
            self.prompt = buf
            if scr is None: self.died()
            self.judge_prompt(scr)
        if end == 'ESC':
            scr = self.send('Escape', b'\x1b')
            self.prompt = None; self.msg = None
            self.count('aborted')
            self.judge(scr, [(self.doc.sel, None)], what=' after Escape at the prompt')
            return
        scr = self.send('Enter', end.encode())
        self.prompt = None; self.msg = None
        pat = searchref.Pattern(buf.encode('utf-8'), self.ascii)
        d = self.doc
        self.count('searches')
        if pat.empty():
            d.results = []
            self.judge(scr, [(d.sel, None)], what=' after an empty search'); self.count('cleared')
            return
        d.results = searchref.find(pat, d)
        self.after_jump(scr, ' after searching %r' % buf)
    def begin_prompt(self):
        scr = self.send('/', b'/')
        self.prompt = ''; self.msg = None
        if scr is None: self.died()
        self.judge_prompt(scr)
    def judge_prompt(self, scr):
        h, w = scr.rows, scr.cols
        want = ('/' + self.prompt)
        if len(want) < w and scr.text[h-1] != ui.cells(want).ljust(w):
            self.bad('prompt', 'the last line is %r, expected %r' % (scr.text[h-1], want))
        self.count('prompts')
    def nextmatch(self):
        scr = self.send('n', b'n')
        self.msg = None
        self.after_jump(scr, ' after n')
    def after_jump(self, scr, what):
        d = self.doc
        m = d.next_match()
        if m is None:
            self.msg = 'Pattern not found'; self.count('not_found')
            self.judge(scr, [(d.sel, None)], what=what)
            return
        s, wrap = m
        if wrap: self.msg = 'Search hit BOTTOM, continuing at TOP'; self.count('wrapped')
        p = s.parent
        while p:
            if p.collapsed: self.count('unfolded')
            p = p.parent
        d.unfold(s)
        self.count('jumps')
        self.judge(scr, [(s, None)], what=what)
    def close(self): self.ui.close()
