"""Builds /repo's current sources, out of tree, into /verif/.build/<variant>-<hash>/."""
import hashlib, os, subprocess, sys, shutil, tempfile, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, '.build')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-fno-omit-frame-pointer']
COMMON = ['-std=gnu++17', '-g', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS']
# variant: (flags, harness source or None, rename main, extra link)
VARIANTS = {
    'cli':      ([],  'cli_server.cpp', True),
    'cli_asan': (SAN, 'cli_server.cpp', True),
    'exe':      ([],  None, False),
    'exe_asan': (SAN, None, False),
    'ui':       ([],  'ui_shim.cpp', False),
    'ui_asan':  (SAN, 'ui_shim.cpp', False),
    'fuzz':     (['-include', 'jsonContainer.hh', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function', '-fno-omit-frame-pointer'], 'fuzz.cpp', True),
    'api_asan': (SAN, 'api.cpp', True),
    'api':      ([],  'api.cpp', True),
}

PARTS = ['TREE', 'LEAK', 'DIFF', 'SEARCH', 'HISTORY', 'DISTANCE']

class HarnessError(Exception):
    pass

def sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(('.cpp', '.cc', '.cxx')))

def _digest(variant):
    flags, harness, ren = VARIANTS[variant]
    h = hashlib.sha256(repr((variant, flags, COMMON, ren)).encode())
    files = sources()
    inc = os.path.join(REPO, 'include')
    for root, dirs, fs in os.walk(inc):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs)]
    for root, dirs, fs in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs) if not f.endswith('.cpp')]
    if harness:
        files.append(os.path.join(VERIF, 'harness', harness))
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]

def build(variant):
    """returns the path of the executable"""
    flags, harness, ren = VARIANTS[variant]
    os.makedirs(OUT, exist_ok=True)
    cxx = 'clang++' if variant == 'fuzz' else 'g++'
    digest = _digest(variant)
    final = os.path.join(OUT, '%s-%s' % (variant, digest))
    exe = os.path.join(final, 'bin')
    with open(os.path.join(OUT, '%s.lock' % variant), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in os.listdir(OUT):   # forget builds of other trees
            if old.startswith(variant + '-'):
                shutil.rmtree(os.path.join(OUT, old), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=OUT)
        try:
            jobs = []
            for s in sources():
                f = COMMON + flags
                if ren and os.path.basename(s) == 'main.cpp':
                    f = f + ['-Dmain=jsonstroll_main']
                jobs.append((s, f, os.path.join(tmp, os.path.basename(s) + '.o')))
            if harness:
                jobs.append((os.path.join(VERIF, 'harness', harness), COMMON + flags, os.path.join(tmp, 'harness.o')))
            if variant.startswith('api'):   # parts of the harness that this tree's classes do not fit are left out
                j = jobs.pop()
                off = []
                def fits(defs): return subprocess.run(['g++'] + j[1] + defs + ['-fsyntax-only', '-I', os.path.join(REPO, 'include'), j[0]], capture_output=True).returncode == 0
                if not fits([]):
                    for p in PARTS:
                        if not fits(['-DNO_' + q for q in PARTS if q != p]): off.append('-DNO_' + p)
                jobs.append((j[0], j[1] + off, j[2]))
            def cc(j):
                return subprocess.run([cxx] + (['-fsanitize=fuzzer-no-link'] if cxx == 'clang++' else []) + j[1] + ['-I', os.path.join(REPO, 'include'), '-c', j[0], '-o', j[2]],
                                      capture_output=True, text=True)
            with ThreadPoolExecutor(8) as ex:
                for r, j in zip(ex.map(cc, jobs), jobs):
                    if r.returncode:
                        raise HarnessError('cannot compile %s:\n%s' % (j[0], r.stderr[-3000:]))
            r = subprocess.run([cxx] + (['-fsanitize=fuzzer'] if cxx == 'clang++' else []) + flags + [j[2] for j in jobs] +
                               ['-o', os.path.join(tmp, 'bin'), '-lncursesw', '-ltinfo', '-ldl', '-lpthread', '-rdynamic'],
                               capture_output=True, text=True)
            if r.returncode:
                raise HarnessError('cannot link:\n' + r.stderr[-3000:])
            for j in jobs:
                os.unlink(j[2])
            os.rename(tmp, final)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return exe

if __name__ == '__main__':
    t = time.time()
    for v in sys.argv[1:] or [v for v in VARIANTS if not VARIANTS[v][1] or os.path.exists(os.path.join(VERIF, 'harness', VARIANTS[v][1]))]:
        print(v, build(v), '%.1fs' % (time.time() - t))
