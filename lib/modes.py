"""What the program says on standard error when the same inputs are viewed, compared or given to another command, instead of printed."""
import os, subprocess
import ui, diag
from frame import Violation

def viewed(exe, args, dir, diff, n):
    """the viewer (or the diff viewer), left at once; its diagnostics"""
    err = os.path.join(dir, 'modes.err')
    u = ui.Ui(exe, (['--diff'] if diff else []) + args, 40, 120, cwd=dir, errfile=err, timeout=60)
    shown = 0
    try:
        s = u.wait()
        for _ in range(n + 2):
            if s is None: break
            shown += 1
            s = u.key(b'q')
        if s is not None: raise Violation('mode', 'the viewer does not end', arguments=args)
        return u.status, u.stderr(), shown
    finally: u.close()

def command(exe, args, dir, env):
    p = subprocess.run([exe] + args + ['--diff-cmd', 'true', '{}', ';'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=dir, env=env, timeout=120)
    return p.returncode, p.stderr, 0

def parse(err): return [tuple(d) for d in diag.parse(err.decode('utf-8', 'replace'))]
