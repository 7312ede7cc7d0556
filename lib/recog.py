"""Reference reading of the first value of an input: 'accept', 'reject', or 'either' where the statement says nothing
(lenient spellings the program is free to take: leading zeros, '.5', '1.', raw control characters in strings,
bytes that are neither printable ASCII nor JSON white space between tokens, bytes glued to a scalar root)."""
import json, math, re
NUM_S = re.compile(rb'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?')
NUM_L = re.compile(rb'-?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?')
NUM_CH = re.compile(rb'[-.0-9][-+.0-9eE]*')
HEX = re.compile(rb'[0-9a-fA-F]{4}')

class Bad(Exception): pass

class Recog:
    def __init__(self, b, ascii_mode=False, tolerant=False):
        self.tolerant = tolerant
        self.b, self.i, self.loose, self.ascii = b, 0, False, ascii_mode
    def ws(self):
        b = self.b
        while self.i < len(b):
            c = b[self.i]
            if c in b' \t\r\n': self.i += 1
            elif c <= 32 or c >= 127: self.i += 1; self.loose = True
            else: return
    def peek(self):
        self.ws()
        return self.b[self.i:self.i+1]
    def string(self):
        b = self.b; start = self.i; self.i += 1
        while True:
            if self.i >= len(b): raise Bad('eof in string')
            c = b[self.i]
            if c == 0x22:
                self.i += 1
                raw = b[start+1:self.i-1]
                try: raw.decode('utf-8')
                except UnicodeDecodeError: self.loose = True
                return raw
            if c == 0x5c:
                e = b[self.i+1:self.i+2]
                if e == b'u':
                    if not HEX.fullmatch(b[self.i+2:self.i+6]): raise Bad('hex')
                    self.i += 6
                elif e and e in b'"\\/bfnrt': self.i += 2
                elif e and self.tolerant: self.i += 2; self.loose = self.loose or e[0] >= 127 or e[0] < 32
                else: raise Bad('escape')
            else:
                if c < 32: self.loose = True
                self.i += 1
    def scalar(self):
        b = self.b
        for w in (b'true', b'false', b'null'):
            if b.startswith(w, self.i) or self.tolerant and b[self.i:self.i+len(w)].lower() == w:
                self.i += len(w); return
        m = NUM_CH.match(b, self.i)
        if not m: raise Bad('illegal')
        run = m.group()
        s = NUM_S.fullmatch(run)
        if s:
            self.i += len(run)
        else:
            l = NUM_L.match(run)
            if not l: raise Bad('number')
            self.loose = True
            self.i += l.end()
            # what follows the longest number cannot be a separator: the caller rejects it
        if math.isinf(float(run[:l.end()] if not s else run)): self.loose = True
    def value(self):
        """iterative: deep documents"""
        stack = []
        while True:
            c = self.peek()
            if c == b'': raise Bad('eof')
            if c == b'{':
                self.i += 1
                if self.peek() == b'}': self.i += 1
                else:
                    stack.append(('o', {})); self.key(stack[-1][1]); continue
            elif c == b'[':
                self.i += 1
                if self.peek() == b']': self.i += 1
                else:
                    stack.append(('a', None)); continue
            elif c == b'"': self.string()
            else:
                self.scalar()
                self.root_scalar = not stack
            while stack:
                c = self.peek()
                kind, keys = stack[-1]
                if c == b',':
                    self.i += 1
                    if kind == 'o': self.key(keys)
                    break
                if c != (b'}' if kind == 'o' else b']'): raise Bad('expected , or close')
                self.i += 1; stack.pop()
            else:
                return
    root_scalar = False
    def key(self, keys):
        if self.peek() != b'"': raise Bad('key')
        raw = self.string()
        if self.peek() != b':': raise Bad('colon')
        self.i += 1
        norm = raw.replace(b'\\/', b'/') if b'\\\\' not in raw else raw
        if norm in keys and not self.tolerant: raise Bad('repeated key')
        keys[norm] = True
        try: dec = json.loads('"' + raw.decode('utf-8') + '"', strict=False)
        except ValueError: dec = norm
        if ('d', dec) in keys and not self.tolerant:
            special = self.ascii
            if not special: raise Bad('repeated key')
            self.loose = True
        keys[('d', dec)] = True

def classify(b, ascii_mode=False):
    """('accept'|'reject'|'either', reason)"""
    r = Recog(b, ascii_mode)
    try: r.value()
    except Bad as e: return 'reject', str(e)
    if r.root_scalar:
        rest = b[r.i:r.i+1]
        if rest and rest not in b' \t\r\n': return 'either', 'glued'
    return ('either', 'loose') if r.loose else ('accept', '')

def classify_tolerant(b):
    """the same with -W"""
    r = Recog(b, False, True)
    try: r.value()
    except Bad as e: return 'reject', str(e)
    if r.root_scalar:
        rest = b[r.i:r.i+1]
        if rest and rest not in b' \t\r\n': return 'either', 'glued'
    return ('either', 'loose') if r.loose else ('accept', '')
