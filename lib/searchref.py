"""Independent reading of search patterns."""
import re

def char(code):
    if 0xd800 <= code < 0xe000 or code < 32 or code == 0x5c:
        return {8: '\\b', 12: '\\f', 10: '\\n', 13: '\\r', 9: '\\t', 0x5c: '\\\\'}.get(code, '\\u%04x' % code).encode()
    return chr(code).encode('utf-8')

def unescape(b):
    """\\uXXXX outside of escaped backslashes becomes its character"""
    out = b''; i = 0
    while i < len(b):
        if b[i:i+2] == b'\\\\': out += b'\\\\'; i += 2; continue
        m = re.match(rb'\\u([0-9a-fA-F]{4})', b[i:])
        if not m: out += b[i:i+1]; i += 1; continue
        c = int(m.group(1), 16); i += 6
        n = re.match(rb'\\u([0-9a-fA-F]{4})', b[i:])
        if 0xd800 <= c < 0xdc00 and n and 0xdc00 <= int(n.group(1), 16) < 0xe000:
            out += chr(0x10000 + ((c & 0x3ff) << 10) + (int(n.group(1), 16) & 0x3ff)).encode('utf-8'); i += 6
        else: out += char(c)
    return out

def lower(b): return bytes(c + 32 if 65 <= c <= 90 else c for c in b)

class Pattern:
    def __init__(self, typed, ascii=False):
        b = typed.encode('latin1') if isinstance(typed, str) else typed
        b = b.split(b'\0')[0]
        if not ascii: b = unescape(b)
        b = b.split(b'\0')[0].lstrip(b' \t')
        text = b''; i = 0; flags = b''
        while i < len(b):
            if b[i:i+1] == b'\\':
                if i + 1 >= len(b): break
                text += b'/' if b[i+1:i+2] == b'/' else b[i:i+2]; i += 2
            elif b[i:i+1] == b'/': flags = b[i+1:]; break
            else: text += b[i:i+1]; i += 1
        self.text = text
        self.i, self.w, self.f, self.e = (x in flags for x in (b'i', b'w', b'f', b'e'))
        kinds = [chr(x) for x in flags if x in b'bnso']
        self.kind = kinds[-1] if kinds else None
        self.bad = False
        if self.e:
            try: self.re = re.compile(text, re.I if self.i else 0)
            except re.error: self.bad = True
    def empty(self): return not self.text
    def match(self, text, kind):
        """kind: b(oolean), n(umber), s(tring), o (key), z (null)"""
        if self.kind and kind != self.kind: return False
        if isinstance(text, str): text = text.encode('utf-8')
        if self.e: return not self.bad and bool(self.re.search(text))
        p, t = self.text, text
        if self.i: p, t = lower(p), lower(t)
        t2 = t.replace(b'\t', b' ')
        if self.f and len(t) != len(p): return False
        if self.w and t2 != p: # whole words
            return b' ' + p + b' ' in b' ' + t2 + b' '
        return p in t2

def find(pat, doc):
    """selectable items whose value or key is matched, in document order"""
    return [s for s in doc.items if (not s.container() and pat.match(s.text, s.type)) or (s.key is not None and pat.match(s.key, 'o'))]
