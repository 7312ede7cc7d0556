"""Reading of the program's output as raw tokens, and its rendering by the layout rules."""
import re
TOK = re.compile(r'[ \t\r\n]*(?:("(?:[^"\\]|\\.)*")|([{}\[\],:])|([^\s"{}\[\],:]+))', re.S)

def raw_docs(text):
    """list of raw trees: ('o', [(rawkey, tree)]), ('a', [tree]), ('r', raw token)"""
    toks = []; i = 0; end = len(text.rstrip(' \t\r\n'))
    while i < end:
        m = TOK.match(text, i)
        if not m: raise ValueError('cannot read output at %r' % text[i:i+40])
        toks.append(m.group(1) or m.group(2) or m.group(3)); i = m.end()
    pos = 0; docs = []
    while pos < len(toks):
        t, pos = _value(toks, pos)
        docs.append(t)
    return docs

def _value(toks, pos):
    stack = []      # (kind, items, key)
    while True:
        if pos >= len(toks): raise ValueError('output ends too early')
        t = toks[pos]; pos += 1
        done = None
        if t in '{[' and len(t) == 1:
            if pos < len(toks) and toks[pos] == ('}' if t == '{' else ']'):
                pos += 1; done = ('o' if t == '{' else 'a', [])
            else:
                stack.append(['o' if t == '{' else 'a', [], None])
                if t == '{': pos = _key(toks, pos, stack)
                continue
        elif t in ('}', ']', ',', ':'): raise ValueError('unexpected %s' % t)
        else: done = ('r', t)
        while stack:
            top = stack[-1]
            top[1].append((top[2], done) if top[0] == 'o' else done)
            if pos >= len(toks): raise ValueError('output ends too early')
            t = toks[pos]; pos += 1
            if t == ',':
                if top[0] == 'o': pos = _key(toks, pos, stack)
                done = None
                break
            if t != ('}' if top[0] == 'o' else ']'): raise ValueError('unexpected %s' % t[:40])
            stack.pop(); done = (top[0], top[1])
        if done is not None and not stack: return done, pos

def _key(toks, pos, stack):
    if pos + 1 >= len(toks) or toks[pos][0] != '"' or toks[pos + 1] != ':': raise ValueError('expected a key')
    stack[-1][2] = toks[pos]
    return pos + 2

def render(t, compress=False):
    out = []
    if compress:
        _flat(t, out)
    else:
        _pretty(t, 0, '', out)
    return ''.join(out)

def _flat(t, out):
    if t[0] == 'r': out.append(t[1])
    elif t[0] == 'a':
        out.append('[')
        for i, v in enumerate(t[1]):
            if i: out.append(',')
            _flat(v, out)
        out.append(']')
    else:
        out.append('{')
        for i, (k, v) in enumerate(t[1]):
            if i: out.append(',')
            out.append(k + ':')
            _flat(v, out)
        out.append('}')

def _pretty(t, level, comma, out):
    ind = '    ' * level
    if t[0] == 'r':
        out.append(ind + comma + t[1] + '\n')
        return
    out.append(ind + comma + ('[' if t[0] == 'a' else '{') + '\n')
    for i, v in enumerate(t[1]):
        c = ',' if i else ''
        if t[0] == 'a': _pretty(v, level + 1, c, out)
        else:
            k, v = v
            if v[0] == 'r': out.append(ind + '    ' + c + k + ':' + v[1] + '\n')
            else:
                out.append(ind + '    ' + c + k + ':\n')
                _pretty(v, level + 1, '', out)
    out.append(ind + (']' if t[0] == 'a' else '}') + '\n')
