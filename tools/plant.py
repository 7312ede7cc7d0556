#!/usr/bin/env python3
"""Confirms a planted change in a scratch copy and keeps it under seeded/. usage: plant.py DIR
DIR/spec.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (text of demo.sh), FILES = {name: path to copy beside it}"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors='replace', **kw)
def in_repo(base, cmd, extra=None, timeout=400):
    """run with the copy at base mounted as /repo"""
    return sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (base, cmd)], timeout=timeout)
def confirm(sp, keep=True):
    base = tempfile.mkdtemp(prefix='plant-'); copy = base + '/repo'
    try:
        sh(['cp', '-a', '/repo', copy])
        sh('git -C %s checkout -q -- .' % copy)
        dd = base + '/demo'; os.mkdir(dd)
        open(dd + '/demo.sh', 'w').write(sp['DEMO'])
        for n, p in sp.get('FILES', {}).items(): shutil.copy(p if p.startswith('/') else os.path.join(V, p), os.path.join(dd, n))
        r = in_repo(copy, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % dd)
        if r.returncode: print('DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-1500:], r.stderr[-1500:]); return False
        for f, old, new in sp['EDITS']:
            t = open(copy + '/' + f).read()
            if t.count(old) != 1: print('EDIT', f, t.count(old), repr(old)); return False
            open(copy + '/' + f, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % copy).stdout
        r = in_repo(copy, 'bash /opt/vp/test.sh %s/out.json' % base)
        t = json.load(open(base + '/out.json'))
        if t['failed'] or len(t['passed']) < 5: print('TESTS', t, r.stderr[-2000:], r.stdout[-1500:]); return False
        r = in_repo(copy, 'bash %s/demo.sh' % dd)
        if not r.returncode: print('DEMO PASSES WITH THE CHANGE'); return False
        print('demo:', r.returncode, (r.stdout + r.stderr)[-300:].strip())
        # lines changed must be of the original repository
        for f in set(x[0] for x in sp['EDITS']):
            orig = sh('git -C /repo show 8ddaadc:%s' % f).stdout.splitlines()
            mine = [l[1:] for l in sh('git -C %s diff -U0 %s' % (copy, f)).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
            for l in mine:
                if l not in orig: print('NOT ORIGINAL', f, l); return False
            if not mine: print('NOTHING REMOVED', f)
        out = os.path.join(V, 'seeded', sp['ID'])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        for n in os.listdir(dd): shutil.copy(os.path.join(dd, n), os.path.join(out, n))
        json.dump({'property': sp['PROP'], 'needs': sp['NEEDS'], 'what_it_breaks': sp['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        return True
    finally: shutil.rmtree(base, ignore_errors=True)
def catch(id, props=None, seed='1', tier='quick'):
    """which checks see it"""
    m = json.load(open(os.path.join(V, 'seeded', id, 'meta.json')))
    base = tempfile.mkdtemp(prefix='catch-'); res = {}
    try:
        sh(['cp', '-a', '/repo', base + '/repo']); sh('git -C %s/repo checkout -q -- .' % base)
        r = sh('git -C %s/repo apply %s/seeded/%s/patch.diff' % (base, V, id))
        if r.returncode: print('apply', r.stderr); return
        os.mkdir(base + '/verif')
        sh('cp -a %s/checks %s/lib %s/harness %s/known_findings.txt %s/properties.jsonl %s/MANIFEST.json %s/verif/; mkdir %s/verif/evidence' % (V, V, V, V, V, V, base, base))
        for p in props or [m['property']]:
            e = dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier, VERIF_REPO=base + '/repo')
            r = sh(['python3', 'checks/%s.py' % p.lower()], cwd=base + '/verif', env=e)
            v = [l for l in r.stdout.splitlines()]
            res[p] = r.returncode
            print('%s by %s: exit %d %s' % (id, p, r.returncode, ' | '.join(x.strip() for x in v[:2])[:250]) + ('' if r.returncode in (0, 1) else r.stderr[-500:]), flush=True)
    finally: shutil.rmtree(base, ignore_errors=True)
    return res
if __name__ == '__main__':
    if sys.argv[1] == 'catch':
        for a in sys.argv[2].split(','): catch(a, sys.argv[3].split(',') if len(sys.argv) > 3 else None)
    else:
        for d in sys.argv[1:]:
            sp = {}; exec(open(d).read(), sp)
            print('==', sp['ID'])
            if confirm(sp): catch(sp['ID'])
