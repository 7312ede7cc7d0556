#!/usr/bin/env python3
"""C07: no crash, memory error, undefined behaviour or hang on any input."""
import os, sys, random, re, subprocess, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import c04

ALLOPT = [b'--compress', b'--ascii', b'--keep-order', b'-W', b'--color=never', b'--color']

def hostile_text(r):
    """bytes for the inside of a string"""
    out = []
    for _ in range(r.choice([1, 2, 5, 20])):
        k = r.randrange(12)
        if k == 0: out.append(b'\\u' + bytes(r.choice(b'0123456789abcdefABCDEFgG-+ "\\') for _ in range(r.choice([0, 1, 2, 3, 4, 4, 4, 5]))))
        elif k == 1: out.append(b'\\u%04x\\u%04x' % (r.randrange(0xd7f0, 0xe010), r.randrange(0xd7f0, 0xe010)))
        elif k == 2: out.append(bytes([r.randrange(256)]) * r.choice([1, 2, 44, 45, 46, 300]))
        elif k == 3: out.append(bytes(r.randrange(256) for _ in range(r.randint(1, 8))))
        elif k == 4: out.append(b'\\' + bytes([r.randrange(256)]))
        elif k == 5: out.append(r.choice([b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\x80', b'\xff\xfe', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80']))
        elif k == 6: out.append(b'\0' * r.choice([1, 2, 50]))
        elif k == 7: out.append(r.choice([b'\n', b'\r', b'\r\n']) * r.choice([1, 3, 50]))
        else: out.append(jg.ser_text(r, jg.gen_text(r)).encode('utf-8', 'replace'))
    return b''.join(out)

def hostile_number(r):
    n = r.choice([0, 1, 5, 20, 50, 310, 500])
    return r.choice([b'', b'-', b'--', b'+']) + bytes(r.choice(b'0123456789') for _ in range(n)) + r.choice([b'', b'.', b'.5', b'..', b'.' + b'9' * 400]) + \
        r.choice([b'', b'e', b'E5', b'e+', b'e-', b'e308', b'e309', b'e-400', b'e99999999999999999999', b'e-99999999999999999999', b'ee', b'e5e5', b'e1.5'])

class C07(CliCheck):
    prop = 'C07'
    variant = 'cli_asan'
    chunk = 40
    N_FUZZ = 8
    @property
    def quick(self): return 17000
    @property
    def thorough(self): return 500000
    rule = ('the program built with AddressSanitizer and UndefinedBehaviorSanitizer on malformed documents of C04, hostile bytes, numbers, nesting up to 1000, long lines and '
            'argument lists, all options; coverage-guided fuzzing (libFuzzer) of parsing and printing with the same sanitizers; a sample under valgrind memcheck for uninitialised '
            'reads; non-trivial: at least 2 bytes of input')
    assumptions = ['nesting of at most 1000 levels', 'single inputs up to some hundreds of kilobytes', 'leaks on malformed input are not counted as memory errors']
    minimum = {'sanitized': 5000, 'valgrind': 40, 'fuzz_execs': 10000, 'deep': 20, 'viewer': 100}
    def prepare(self):
        for v in ('cli_asan', 'exe', 'fuzz'): build.build(v)
    def setup(self):
        CliCheck.setup(self)
        self.exe = build.build('exe'); self.fuzz = build.build('fuzz')
    def case(self, i, r):
        if i % 40 == 0 and i // 40 < self.N_FUZZ: return self.fuzzing(i // 40, r)
        if i % (90 if not THOROUGH else 400) == 1: return self.memcheck(r)
        b, opt, kind = self.input(r)
        c = {'sanitized': 1, kind: 1, 'bytes': len(b), 'max_bytes': len(b)}
        data = dict(input=b if len(b) < 200000 else b[:200000], options=opt, kind=kind)
        src = r.choice(['stdin', 'stdin', 'stdin', 'file', 'args'])
        if kind == 'arguments': res = self.run(opt, b)
        elif src == 'file' or b'--diff-cmd' in opt or kind == 'viewer':
            p = os.path.join(self.dir, 'in')
            with open(p, 'wb') as f: f.write(b)
            res = self.run(opt + [p], b'')
        elif src == 'args' and b'\0' not in b and len(b) < 100000: res = self.run(opt + [b'--'] + b.split(b' '))
        else: res = self.run(opt, b)
        self.verdict(res, data)
        return Case(b + repr(opt).encode(), len(b) > 1, c, {'input': b[:200], 'options': opt, 'kind': kind})
    def verdict(self, res, data):
        if res.status == cli.TIMEOUT: raise Violation('hang', 'does not end', **data)
        if res.status not in (0, 1) or b'AddressSanitizer' in res.err or b'runtime error:' in res.err:
            m = re.search(rb'(runtime error: .*|ERROR: AddressSanitizer: [\w-]+|terminate called.*|Assertion.*)', res.err)
            raise Violation('crash', 'status %d: %s' % (res.status, (m.group(0) if m else res.err[-400:]).decode('latin1')), stderr=res.err[-6000:], **data)
    def input(self, r):
        opt = opts(r, ALLOPT)
        k = r.random()
        if k < .4:
            b, kind = c04.C04().mutant(r); return b, opt, 'mutant'
        if k < .6: # hostile scalars in a valid frame
            t = jg.gen_tree(r, r.choice([1, 2, 3]), [r.choice([3, 8])])
            toks = [x.encode('utf-8') for x in jg.tokens(r, t)]
            for _ in range(r.choice([1, 1, 2])):
                v = [j for j, x in enumerate(toks) if x not in (b'{', b'}', b'[', b']', b',', b':')]
                if v:
                    j = r.choice(v)
                    toks[j] = b'"' + hostile_text(r) + b'"' if toks[j][0:1] == b'"' or r.random() < .3 else hostile_number(r) if r.random() < .7 else r.choice([b'TRUE', b'fAlse', b'NuLL', b'nan', b'tru', b'n', b't', b'f', b'nul', b'trueeeee', b'falsee'])
            b = jg.WS['some'](r).encode().join(toks)
            if r.random() < .3: b = b[:r.randint(0, len(b))]
            return b, opt, 'hostile'
        if k < .7: return bytes(r.randrange(256) if r.random() < .3 else r.choice(b'{}[],:"\\u0123456789.eE+-truefalsn \n\t\r/') for _ in range(r.choice([1, 2, 3, 5, 10, 30, 100, 400]))), opt, 'garbage'
        if k < .73: # nesting
            d = r.choice([100, 500, 900, 1000])
            o = b''.join(r.choice([b'[', b'{"k":', b'[1,', b'{"a":0,"b":']) if r.random() < .9 else b'[' for _ in range(d - 1))
            b = o + b'[' + r.choice([b'1', b'', b'"x"'])
            if r.random() < .7:
                b += b']'
                for m in re.finditer(rb'\[1,|\[|\{"k":|\{"a":0,"b":', o[::1]): pass
                b += b''.join(b']' if m.startswith(b'[') else b'}' for m in re.findall(rb'\[1,|\[|\{"k":|\{"a":0,"b":', o)[::-1])
            return b, opt, 'deep'
        if k < .80: # long lines, big documents
            n = r.choice([44, 45, 46, 90, 91, 1000, 5000])
            b = r.choice([b'[' + b' ' * n + b'}', b'"' + b'a' * n, b'"' + b'a' * n + b'\\q"', b'[' + b'1,' * n + b'x', b'\n' * n + b'?', b'[' + b'true,' * n + b'truf]', b'{"' + b'k' * n + b'" 1}',
                          b'[' + b'"a' * n, b'\r\n' * n + b'[1,]', b'[' + b'[],' * n + b'{}]', b'{' + b','.join(b'"k%d":%d' % (j, j) for j in range(n)) + b'}', b'[' + b'9' * n + b']', b'0.' + b'0' * n + b'1', b'1' + b'0' * n + b'e-%d' % n])
            return b, opt, 'long'
        if k < .86: # prefixes of literals and escapes at the very end
            return r.choice([b'', b'[', b'{"a":', b'"a', b'["', b'{"']) + r.choice([b't', b'tr', b'tru', b'true', b'f', b'fals', b'false', b'n', b'nu', b'nul', b'null', b'N', b'T', b'F', b'-', b'1', b'1.', b'1e', b'1e-', b'.', b'"', b'"\\', b'"\\u', b'"\\u1', b'"\\u12', b'"\\u123',
                                                                                                                 b'"\\u1234', b'"\\ud83d', b'"\\ud83d\\', b'"\\ud83d\\u', b'"\\ud83d\\ud', b'"\\ud83d\\ude0', b'"\\ud83d\\ude00', b'"a"', b'"a":', b',', b':', b'\\', b'\\u', b'\\ud83d\\']), opt, 'ends'
        if k < .90: # any bytes as arguments
            args = []
            for _ in range(r.randint(1, 5)):
                a = r.choice([b'--', b'-', b'-W', b'--color=', b'--color=never', b'--diff', b'--diff-cmd', b'-v', b'', b'/nonexistent', b'.', b'/', b'\xff\xfe', b'--\xff', b'%s%n', b'-' * 300, b'a' * 5000, b'--compress', b';', b'{}'])
                args.append(a)
            if b'--diff-cmd' in args: # whatever comes next would be run: make it harmless
                args = [x for x in args if x not in (b'--diff-cmd',)] + [b'--diff-cmd', b'true', b'{}'] + ([b';'] if r.random() < .5 else [])
            if args.count(b'--diff') and r.random() < .8: args = [x for x in args if x != b'--diff']
            return b'[1]', args, 'arguments'
        if k < .93:
            b, kind = c04.C04().mutant(r)
            return b, opt + [b'--diff-cmd'] + r.choice([[b'true', b'{}'], [b'cat', b'{}'], [b'/nonexistent', b'{}', b'{}'], [b'true'] + [b'{}'] * 200, [], [b'{}'], [b'sh', b'-c', b'kill -9 $$']]) + [b';'], 'extdiff'
        t = jg.gen_tree(r, r.choice([2, 4, 6]), [r.choice([40, 200, 600])])
        if k < .95:    # no terminal to show them on
            other = os.path.join(self.dir, 'other')
            with open(other, 'wb') as f: f.write(jg.serialise(r, t).encode('utf-8') if r.random() < .8 else c04.C04().mutant(r)[0])
            return jg.serialise(r, t).encode('utf-8') if r.random() < .8 else c04.C04().mutant(r)[0], opt + [b'--diff', other.encode()], 'viewer'
        return jg.serialise(r, t).encode('utf-8'), opt, 'valid'
    def memcheck(self, r):
        while True:
            b, opt, kind = self.input(r)
            if kind not in ('arguments', 'viewer') and len(b) < 20000: break
        data = dict(input=b, options=opt, kind=kind, tool='valgrind')
        p = os.path.join(self.dir, 'vin')
        with open(p, 'wb') as f: f.write(b)
        env = dict(self.cli.env)
        cmd = ['valgrind', '-q', '--error-exitcode=98', '--leak-check=no', '--undef-value-errors=yes', '--trace-children=no', self.exe] + opt + [p]
        try: q = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, timeout=200, env=env)
        except subprocess.TimeoutExpired: raise Violation('hang', 'does not end under valgrind', **data)
        if q.returncode not in (0, 1) or b'== ' in q.stderr and b'uninitialised' in q.stderr:
            m = re.search(rb'==\d+== (?!\s)(.*)', q.stderr)
            raise Violation('memcheck', 'status %d: %s' % (q.returncode, (m.group(1) if m else q.stderr[-300:]).decode('latin1')), stderr=q.stderr[-6000:], **data)
        return Case(b + repr(opt).encode() + b'valgrind', len(b) > 1, {'valgrind': 1}, {'input': b[:200], 'options': opt, 'tool': 'valgrind'})
    def fuzzing(self, j, r):
        d = os.path.join(self.dir, 'corpus%d' % j); os.makedirs(d)
        for n in range(60):
            b, opt, kind = self.input(r)
            if kind in ('arguments', 'viewer') or len(b) > 600: b = jg.serialise(r, jg.gen_tree(r, 3, [8])).encode('utf-8')
            with open(os.path.join(d, 's%d' % n), 'wb') as f: f.write(bytes([r.randrange(32)]) + b)
        dic = os.path.join(self.dir, 'dict')
        with open(dic, 'w') as f:
            for w in ['{', '}', '[', ']', ',', ':', 'true', 'false', 'null', '\\\\u', '\\\\ud83d', '\\\\ude00', '\\\\n', '\\"a\\":', '1e5', '-0.5', '\\\\\\\\', 'TRUE', '\\x0d\\x0a']: f.write('"%s"\n' % w)
        runs = 400000 if THOROUGH else 25000
        env = dict(self.cli.env); env['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=8:malloc_context_size=3'
        art = os.path.join(self.dir, 'crash-%d-' % j)
        q = subprocess.run([self.fuzz, '-runs=%d' % runs, '-seed=%d' % (r.randrange(1, 2**31)), '-max_len=600', '-timeout=20', '-rss_limit_mb=3000', '-print_final_stats=1', '-dict=' + dic,
                            '-max_total_time=%d' % (1500 if THOROUGH else 90), '-artifact_prefix=' + art, d], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
        err = q.stderr
        if q.returncode and b'out-of-memory' not in err:
            a = glob.glob(art + '*'); b = open(a[0], 'rb').read() if a else b''
            m = re.search(rb'(runtime error: .*|ERROR: \w+: [\w-]+|terminate called.*|ERROR: libFuzzer.*)', err)
            raise Violation('fuzz', 'fuzz target ended with %d: %s' % (q.returncode, (m.group(0) if m else err[-300:]).decode('latin1')), input=b, stderr=err[-6000:])
        st = dict(re.findall(rb'stat::(\w+):\s+(\d+)', err))
        cov = re.findall(rb'cov: (\d+) ft: (\d+) corp: (\d+)', err)
        n = int(st.get(b'number_of_executed_units', 0))
        c = {'fuzz_execs': n}
        if cov: c['max_fuzz_edges'], c['max_fuzz_features'], c['max_fuzz_corpus'] = map(int, cov[-1])
        return Case('fuzz%d' % j, True, c, None, max(1, n))

if __name__ == '__main__': sys.exit(main(C07()))
