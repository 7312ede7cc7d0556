"""Shared by the checks that run the command line program."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, cli, frame, jsongen as jg
from frame import Check, Case, Violation, main, THOROUGH, SEED

FLAGS = [b'--compress', b'--ascii', b'--keep-order', b'-W', b'--color=never', b'--color']

def opts(r, flags=FLAGS, p=0.35):
    o = [f for f in flags if r.random() < p]
    r.shuffle(o)
    return o

class CliCheck(Check):
    variant = 'cli'
    env = None
    def prepare(self):
        build.build(self.variant)
    def setup(self):
        self.cli = cli.Cli(build.build(self.variant), env=self.env)
    def teardown(self):
        if getattr(self, 'cli', None): self.cli.close()
    def run(self, args, data=b'', **kw):
        if isinstance(data, str): data = data.encode('utf-8')
        return self.cli.run(args, data, **kw)

def clean(res, **data):
    """a run that must end normally and say nothing"""
    if res.status == cli.TIMEOUT: raise Violation('hang', 'does not end', **data)
    if res.status != 0: raise Violation('status', 'ended with status %d, stderr: %s' % (res.status, jg.short(res.err, 600)), **data)
    if res.err: raise Violation('stderr', 'unexpected diagnostic: %s' % jg.short(res.err, 600), stdout=res.out, **data)

def decode(out, **data):
    try: return out.decode('utf-8')
    except UnicodeDecodeError as e: raise Violation('utf8', 'output is not UTF-8: %s' % e, stdout=out, **data)

def minimise(t, fails, limit=400):
    """greedy shrinking of a tree while fails(tree) returns an exception"""
    best = fails(t); n = 0
    if best is None: return t, None
    again = True
    while again and n < limit:
        again = False
        for c in jg.shrink_candidates(t):
            n += 1
            if n > limit: break
            try: f = fails(c)
            except Exception: f = None
            if f is not None:
                t, best, again = c, f, True
                break
    return t, best
