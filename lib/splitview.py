"""A session of the diff view on a tall terminal, judged against the model after every key."""
import math
from frame import Violation
import ui, searchref
from ui import Ui, Doc
from viewer import CTRL

MARK = {'+': b'++', '!': b'!!', '=': b'  '}
class Node: __slots__ = ('idx', 'kind', 'parent', 'op', 'eq')
def read(reply):
    sides = {'A': [], 'B': []}
    for l in reply.splitlines():
        f = l.split(' '); n = Node()
        n.idx, n.kind, n.parent, n.op, n.eq = int(f[1]), f[2], int(f[3]), f[4], int(f[6])
        sides[f[0]].append(n)
    return sides['A'], sides['B']

class Half:
    """one document: its model, and the node of every item and of its value"""
    def __init__(self, doc, nodes):
        self.doc, self.nodes = doc, nodes
        self.ent, self.val, self.byent, self.byval = {}, {}, {}, {}
        i = 0
        for s in doc.items:
            self.ent[id(s)] = nodes[i]; self.byent[i] = s
            if s.key is not None: i += 1
            self.val[id(s)] = nodes[i]; self.byval[i] = s
            i += 1
        if i != len(nodes): raise RuntimeError('%d nodes, the model has %d' % (len(nodes), i))
        self.sel = self.last = doc.root
    def steps(self, w, color, hits=True):
        """what is written at once: [(item, paired node or None, [rows: (text, sel, hit, soft)])]"""
        out = []
        found = set(id(s) for s in self.doc.results)
        for s, x, parts in self.doc.lines(0):
            br = len(parts) == 1 and parts[0][1] == 'p' and parts[0][0] in '{}[]'
            node = (self.val if br else self.ent)[id(s)]
            S = 1 if s is self.sel else 0
            H = 1 if id(s) in found and color and (not s.container() or parts[0][1] == 'k') else 0
            m = MARK[node.op]
            text = m.decode() + ' ' * x; f = 1 if node.op != '=' else 0
            sel = [f] * 2 + [0] * x; hit = [0] * (2 + x)
            for t, c in parts: text += t; sel += [S] * len(t); hit += [H] * len(t)
            n = max(1, math.ceil(len(text) / w)); pad = n * w - len(text)
            tb = ui.cells(text) + b' ' * pad; sel += [0] * pad; hit += [0] * pad
            soft = br and s.key is not None and parts[0][0] in '{['
            rows = [(tb[i*w:(i+1)*w], bytes(sel[i*w:(i+1)*w]), bytes(hit[i*w:(i+1)*w]), soft) for i in range(n)]
            if soft and out: out[-1][2].extend(rows)      # the opening bracket of a member comes with its key
            else: out.append((s, node, rows))
        return out

class Split:
    def __init__(self, exe, args, docs, replies, rows, cols, keep, ascii, color, dir, errfile, c, timeout=40, short=False, tiny=None):
        self.short = short
        """docs: [(name, tree)], replies: what the program pairs"""
        self.docs, self.color, self.ascii, self.args, self.c = docs, color, ascii, args, c
        A, B = read(replies)
        self.half = [Half(Doc(docs[0][1], keep), A), Half(Doc(docs[1][1], keep), B)]
        self.act = 0
        self.log = []
        self.msg = None
        self.k = ui.keys('linux')
        self.ui = Ui(exe, args, *(tiny or (rows, cols)), 'linux', dir, errfile, timeout=timeout)
        self.select(self.half[0].doc.root)
        scr = self.ui.wait()
        if tiny:     # started on a terminal with no room, which then grows
            self.log.append('resize %dx%d' % (rows, cols)); self.add('tiny')
            if scr is not None: scr = self.ui.resize(rows, cols)
        self.judge(scr, 'at the start')
    def add(self, k, n=1): self.c[k] = self.c.get(k, 0) + n
    def bad(self, key, detail, **kw):
        s = self.ui.screen
        kw.setdefault('screen', s.show() if s else None)
        kw.setdefault('keys', self.log[-400:]); kw.setdefault('arguments', self.args); kw.setdefault('size', self.ui.dim); kw.setdefault('active', self.act)
        kw.setdefault('documents', [repr(d)[:3000] for d in self.docs])
        raise Violation(key, detail, **kw)
    def died(self):
        st = self.ui.status
        self.bad('crash' if st not in (0, 1) else 'exit', 'the viewer ended with status %s: %s' % (st, self.ui.stderr()[-1500:].decode('latin1')), screen=None)
    def close(self): self.ui.close()
    # ---- model
    def mate(self, i, s):
        """counterpart of an item of half i"""
        e = self.half[i].ent[id(s)].eq
        return self.half[1-i].byent.get(e) if e >= 0 else None
    def vmate(self, i, s):
        e = self.half[i].val[id(s)].eq
        return self.half[1-i].byval.get(e) if e >= 0 else None
    def select(self, s):
        a, b = self.half[self.act], self.half[1-self.act]
        a.sel = a.last = s; b.sel = self.mate(self.act, s)
        if b.sel: b.last = b.sel
        a.doc.sel = s
    def fold(self, s, on):
        s.collapsed = on
        q = self.vmate(self.act, s)
        if q and q.container():
            q.collapsed = on; self.add('coupled')
        # what was selected on the other side must not be hidden
    def width(self): return self.ui.dim[1] // 2 - 2
    # ---- judging
    def rows(self, scr, i, a):
        w = self.width(); x = i * (scr.cols // 2 - 1) + 1
        return [r[x:x+w] for r in a]
    def judge_short(self, scr, what):
        """too short for the documents: each half shows consecutive rows of its document between the gaps, the active one with the selection"""
        w = self.width(); H = scr.rows - 3
        self.add('short_screens')
        gap = (b'--' + b' ' * (w - 2), b' ' * w)
        for i in (0, 1):
            half = self.half[i]; name = ('left', 'right')[i]
            raw = list(zip(*[self.rows(scr, i, x)[2:2+H] for x in (scr.text, scr.sel, scr.hit)]))
            obs = [x for x in raw if x[0] not in gap]
            full = [q[:3] for s in half.steps(w, self.color) for q in s[2] if q[0] not in gap]
            if not obs and full and not any(x[0] == gap[0] for x in raw): self.bad('window', 'the %s half shows nothing %s' % (name, what))
            best = False; n = len(obs); ok = not obs
            for t in range(len(full) - n + 1):
                if [x[0] for x in full[t:t+n]] == [x[0] for x in obs]:
                    best = True
                    if full[t:t+n] == obs:
                        ok = True
                        if t: self.add('short_scrolled')
                        break
            if not ok and not best: self.bad('window', 'the %s half does not show consecutive rows of its document %s' % (name, what), column=[x[0].decode('latin1') for x in full][:200])
            if not ok: self.bad('short_selection', 'what is highlighted in the %s half is not what is selected or found %s' % (name, what), selection=half.sel and half.doc.describe(half.sel))
            if any(any(x[1][2:]) for x in full) and not any(any(x[1][2:]) for x in raw): self.bad('hidden', 'the selection (%s) is not shown %s' % (half.doc.describe(half.sel), what))
    def judge(self, scr, what):
        if scr is None: self.died()
        if (scr.rows, scr.cols) != self.ui.dim: self.bad('size', 'drawn for %dx%d, the terminal is %r' % (scr.rows, scr.cols, self.ui.dim))
        self.add('screens')
        w = self.width(); H = scr.rows
        T = [self.rows(scr, i, scr.text) for i in (0, 1)]; S = [self.rows(scr, i, scr.sel) for i in (0, 1)]; M = [self.rows(scr, i, scr.hit) for i in (0, 1)]
        for i in (0, 1):
            n = ui.cells(self.docs[i][0])[:w]
            if T[i][1].rstrip() != n.rstrip(): self.bad('name', 'half %d has %r for name, expected %r' % (i, T[i][1], n))
        if self.msg is not None and not scr.text[-1].startswith(self.msg.encode()[:scr.cols]): self.bad('bottom', 'the last line is %r, expected %r %s' % (scr.text[-1], self.msg, what))
        if self.short: self.judge_short(scr, what); return
        st = [self.half[i].steps(w, self.color) for i in (0, 1)]
        at = [0, 0]; y = 2
        dash = b'--' + b' ' * (w - 2); blank = b' ' * w; zero = bytes(w); dsel = b'\1\1' + bytes(w - 2)
        nth = ('left', 'right')
        def room(n):
            if y + n > H - 1: self.bad('content', 'the documents do not end where they should %s' % what, at=at)
        def cells(i, rows, y):
            for k, (t, s, m, soft) in enumerate(rows):
                if T[i][y+k] != t:
                    kind = 'marker' if T[i][y+k][2:] == t[2:] else 'content'
                    self.bad(kind, 'row %d of the %s half is %r, expected %r %s' % (y + k, nth[i], T[i][y+k].rstrip(), t.rstrip(), what))
                if S[i][y+k] != s: self.bad('selection', 'row %d of the %s half: what is highlighted is not what is selected (%s) %s' % (y + k, nth[i], self.half[i].sel and self.half[i].doc.describe(self.half[i].sel), what), got=list(S[i][y+k]), expected=list(s))
                if M[i][y+k] != m: self.bad('found', 'row %d of the %s half: what is marked as found is not what was searched %s' % (y + k, nth[i], what))
        while at[0] < len(st[0]) or at[1] < len(st[1]):
            room(1)
            cur = [st[i][at[i]] if at[i] < len(st[i]) else None for i in (0, 1)]
            done = False
            for i in (0, 1):
                # an item of one side only faces --
                if cur[i] and cur[i][1].eq < 0 and T[1-i][y] == dash:
                    n = len(cur[i][2]); room(n)
                    cells(i, cur[i][2], y)
                    for k in range(n):
                        if T[1-i][y+k] != dash or S[1-i][y+k] != dsel: self.bad('gap', 'row %d of the %s half faces an item of the other only, and is %r instead of -- %s' % (y + k, nth[1-i], T[1-i][y+k], what))
                    at[i] += 1; y += n; done = True; self.add('one_side'); break
            if done: continue
            if not cur[0] or not cur[1] or cur[0][1].eq != cur[1][1].idx:
                self.bad('align', 'row %d shows %r and %r: neither a pair nor one item facing -- %s' % (y, T[0][y], T[1][y], what))
            n = max(len(cur[0][2]), len(cur[1][2])); room(n)
            for i in (0, 1):
                rows = cur[i][2]
                # the bracket of a member may face --
                cells(i, rows, y)
                for k in range(len(rows), n):
                    if T[i][y+k] != blank and not (T[i][y+k] == dash and any(q[3] for q in cur[1-i][2][k:k+1])): self.bad('gap', 'row %d of the %s half is %r beside a longer item %s' % (y + k, nth[i], T[i][y+k], what))
                at[i] += 1
            y += n; self.add('pairs')
            if cur[0][1].op == '!': self.add('modified')
        for k in range(y, H - 1):
            for i in (0, 1):
                if T[i][k] != blank: self.bad('content', 'row %d of the %s half is %r after the end %s' % (k, nth[i], T[i][k], what))
        if self.half[self.act].sel is None: raise RuntimeError('no selection in the model')
        if self.half[1-self.act].sel: self.add('both_selected')
    # ---- keys
    def data(self, name):
        if name in self.k: return self.k[name]
        if name in CTRL: return CTRL[name]
        return bytes([name]) if isinstance(name, int) else name.encode('latin1')
    def send(self, name):
        self.log.append(name); self.add('keys')
        return self.ui.key(self.data(name))
    MOVES = {'UP': 'up', 'k': 'up', 'K': 'up', 'DOWN': 'down', 'j': 'down', 'J': 'down', 'LEFT': 'left', 'h': 'left', 'H': 'left', 'RIGHT': 'right', 'l': 'right', 'L': 'right', 'PPAGE': 'pup', 'NPAGE': 'pdown'}
    def press(self, name):
        act = self.MOVES[name]
        d = self.half[self.act].doc; s = d.sel = self.half[self.act].sel
        scr = self.send(name)
        self.msg = None
        self.add(act)
        if act == 'up': self.select(d.prev_visible())
        elif act == 'down': self.select(d.next_visible())
        elif act == 'left':
            if s.container() and not s.collapsed and (s.kids or not s.parent): self.fold(s, True); self.add('collapsed')
            elif s.parent: self.select(s.parent)
        elif act == 'right':
            if s.container() and s.collapsed: self.fold(s, False); self.add('expanded')
            elif s.container() and s.kids: self.select(s.kids[0])
        elif act == 'pup': self.select(d.page_up())
        elif act == 'pdown': self.select(d.page_down())
        self.judge(scr, 'after key %s' % name)
        if d.sel is not s: self.add('moved')
    def change(self, how):
        """another half: w, h, l, LEFT or RIGHT after ^W"""
        scr0 = self.ui.screen.raw
        scr = self.send('^W')
        if scr is None: self.died()
        scr = self.send(how)
        to = 1 - self.act if how in 'wW' else 0 if how in ('h', 'H', 'LEFT') else 1
        if to != self.act:
            self.act = to; self.add('changes'); self.msg = None
            a = self.half[to]
            s = a.sel or a.last
            # hidden meanwhile: the closest container shown
            p = s.parent
            while p:
                if p.collapsed: s = p; self.add('hidden')
                p = p.parent
            self.select(s)
        self.judge(scr, 'after ^W %s' % how)
    def resize(self, rows, cols, tiny=None):
        if (rows, cols) == self.ui.dim: rows += 1
        self.log.append('resize %dx%d' % (rows, cols)); self.msg = None
        self.add('resizes')
        if self.short and tiny:
            self.log.append('resize %dx%d' % tiny); self.add('tiny')
            if self.ui.resize(*tiny) is None: self.died()
        self.judge(self.ui.resize(rows, cols), 'after a resize')
    def search(self, text, end='\n'):
        for k, x in enumerate('/' + text):
            for z in x.encode('utf-8'): scr = self.send(z)
            if scr is None: self.died()
            want = ui.cells(('/' + text)[:k+1])
            if len(want) < scr.cols and scr.text[-1].rstrip() != want.rstrip(): self.bad('prompt', 'the last line is %r, expected %r' % (scr.text[-1], want))
        self.msg = None
        if end == 'ESC':
            self.judge(self.ui.key(b'\x1b'), 'after Escape at the prompt'); self.log.append('Escape'); self.add('aborted'); return
        self.log.append('Enter')
        scr = self.ui.key(end.encode())
        pat = searchref.Pattern(text.encode('utf-8'), self.ascii)
        self.add('searches')
        for h in self.half: h.doc.results = [] if pat.empty() else searchref.find(pat, h.doc)
        if pat.empty(): self.judge(scr, 'after an empty search'); return
        self.jump(scr, 'after searching %r' % text)
    def next(self):
        scr = self.send('n'); self.msg = None
        self.jump(scr, 'after n')
    def jump(self, scr, what):
        h = self.half[self.act]; d = h.doc; d.sel = h.sel
        m = d.next_match()
        if m is None:
            self.msg = 'Pattern not found'; self.add('not_found')
        else:
            s, wrap = m
            if wrap: self.msg = 'Search hit BOTTOM, continuing at TOP'; self.add('wrapped')
            p = s.parent
            while p:
                if p.collapsed: self.fold(p, False); self.add('unfolded')
                p = p.parent
            self.select(s); self.add('jumps')
            q = self.half[1-self.act].sel
            if q:
                p = q.parent
                while p: p.collapsed = False; p = p.parent
        self.judge(scr, what)
    def quit(self):
        scr = self.send('q')
        if scr is not None: self.bad('quit', 'the viewer waits for another key after q')
        if self.ui.status != 0: self.died()
