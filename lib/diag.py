"""Positions and diagnostics."""
import re
WARN = re.compile(r'(Warning|Error): ([^\n]*?): (\S+) \[(\w+)\] at line (\d+), col (\d+) \((.*?)\) while reading\n(.*?)\n(~*)\^\n', re.S)

def position(text, idx):
    """(line, column, text of the line up to idx) of the character at idx; lines end with LF, CR or CRLF"""
    line = 1; start = 0; i = 0
    while i < idx:
        c = text[i]
        if c == '\r':
            if text[i+1:i+2] == '\n': 
                if i + 1 >= idx: break
                i += 1
            line += 1; start = i + 1
        elif c == '\n':
            line += 1; start = i + 1
        i += 1
    return line, idx - start + 1, text[start:idx+1]

def parse(err):
    """list of (kind, prog, name, line, col, message, excerpt, tildes) or raises ValueError"""
    out = []; i = 0
    while i < len(err):
        m = WARN.match(err, i)
        if not m: raise ValueError('cannot read diagnostics at %r' % err[i:i+80])
        out.append((m.group(1), m.group(2), m.group(3), int(m.group(5)), int(m.group(6)), m.group(7), m.group(8), len(m.group(9))))
        i = m.end()
    return out
