"""Common frame of the checks: seeds, parallel cases, known findings, verdict lines, evidence."""
import glob, hashlib, json, multiprocessing, os, random, sys, time, traceback, shutil, tempfile, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
THOROUGH = TIER == 'thorough'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))

class Violation(Exception):
    """key identifies what fails (for known findings); detail is what was observed; data is the replay"""
    def __init__(self, key, detail, **data):
        Exception.__init__(self, detail)
        self.key, self.detail, self.data = key, detail, data
    def __reduce__(self):
        return (_mkviol, (self.key, self.detail, self.data))
def _mkviol(k, d, data): return Violation(k, d, **data)

def js(x):
    """JSON-able version of replay data"""
    if isinstance(x, bytes):
        try: return x.decode('utf-8')
        except UnicodeDecodeError: return {'latin1': x.decode('latin1')}
    if isinstance(x, dict): return {str(k): js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [js(v) for v in x]
    if isinstance(x, (int, float, bool)) or x is None: return x
    return str(x)

class Case:
    """what a case reports besides passing: its identity, whether it is non-trivial, counters, a sample"""
    __slots__ = ('ident', 'nontrivial', 'counts', 'sample', 'evals')
    def __init__(self, ident, nontrivial=True, counts=None, sample=None, evals=1):
        if not isinstance(ident, bytes): ident = repr(ident).encode('utf-8', 'surrogatepass')
        self.ident = hashlib.md5(ident).digest()[:8]
        self.nontrivial, self.counts, self.sample, self.evals = nontrivial, counts or {}, sample, evals

class Check:
    """subclass: setup() in each worker, case(i, rng) -> Case or list of Case, raising Violation"""
    prop = None
    rule = ''
    assumptions = []
    level = 'exploration'
    quick, thorough = 1000, 20000
    chunk = 20
    max_violations = 5
    minimum = {}            # counters that must be reached for the run to mean anything
    def prepare(self): pass     # once, before the workers: builds
    def setup(self): pass       # in each worker
    def teardown(self): pass
    def case(self, i, r): raise NotImplementedError
    def fixed(self): return []  # callables run once, in the parent-independent worker, before random cases
    def finish(self, stats): pass

_check = None
_setup_pid = None
def _work(rng):
    global _setup_pid
    c = _check
    if _setup_pid != os.getpid():
        c.dir = os.path.join(c.tmp, 'w%d' % os.getpid()); os.makedirs(c.dir)
        c.setup(); _setup_pid = os.getpid()
    out = []; viol = []
    for i in range(*rng):
        r = random.Random('%s/%s/%d/%d' % (c.prop, TIER, SEED, i))
        try:
            res = c.case(i, r)
            if res is None: continue
            for x in (res if isinstance(res, list) else [res]):
                out.append((x.ident, x.nontrivial, x.counts, x.sample if i % 97 == 3 or i < 3 else None, x.evals))
        except Violation as v:
            v.data.setdefault('case', i)
            viol.append((v.key, v.detail, js(v.data)))
            out.append((b'viol%d' % i, True, {}, None, 1))
        except Exception:
            viol.append(('__error__', 'case %d: ' % i + traceback.format_exc(), {'case': i}))
    return out, viol

def known():
    """known findings: {property: {key: text}}"""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                f = dict(x.split('=', 1) for x in l[6:].split(None, 2)[:2])
                res.setdefault(f['property'], {})[f['key']] = l[6:].split(None, 2)[2]
    return res

def main(check):
    global _check
    _check = check
    t0 = time.time()
    check.tmp = tempfile.mkdtemp(prefix='verif-%s-' % check.prop)   # scratch of this run, and of each worker
    os.chmod(check.tmp, 0o755)
    try: return _main(check, t0)
    finally: shutil.rmtree(check.tmp, ignore_errors=True)

def _main(check, t0):
    argv = sys.argv[1:]
    n = check.thorough if THOROUGH else check.quick
    if argv and argv[0] == 'replay':    # replay one case: <check> replay INDEX
        check.dir = check.tmp
        check.prepare(); check.setup()
        i = int(argv[1])
        r = random.Random('%s/%s/%d/%d' % (check.prop, TIER, SEED, i))
        try:
            print(check.case(i, r)); print('case passes')
        except Violation as v:
            print('VIOLATION', v.key, v.detail); print(json.dumps(js(v.data), indent=1))
        finally:
            check.teardown()
        return 0
    try:
        check.prepare()
    except Exception as e:
        print('ERROR: %s' % e); traceback.print_exc()
        return 2
    for f in glob.glob(os.path.join(VERIF, 'replay', '%s-%s-%d-*.json' % (check.prop, TIER, SEED))): os.unlink(f)
    kn = known().get(check.prop, {})
    idents = set(); nontriv = set(); counts = {}; samples = []; evals = 0
    viols = []; errors = []; seenknown = {}; nviol = 0
    ranges = [(a, min(a + check.chunk, n)) for a in range(0, n, check.chunk)]
    ctx = multiprocessing.get_context('fork')
    stop = False; tviol = None
    with ctx.Pool(min(NPROC, max(1, len(ranges)))) as pool:
        it = pool.imap_unordered(_work, ranges)
        while True:
            try:
                out, viol = it.next(timeout=500)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                errors.append('no progress for 500 s'); break
            for ident, nt, cs, sample, ev in out:
                evals += ev
                idents.add(ident)
                if nt: nontriv.add(ident)
                for k, v in cs.items():
                    if k.startswith('max_'): counts[k] = max(counts.get(k, 0), v)
                    else: counts[k] = counts.get(k, 0) + v
                if sample is not None and len(samples) < 6: samples.append(js(sample))
            for key, detail, data in viol:
                if key == '__error__': errors.append(detail)
                elif key in kn: seenknown.setdefault(key, detail)
                else:
                    nviol += 1
                    if not any(v[0] == key for v in viols) or len(viols) < 3: viols.append((key, detail, data))
            if viols and tviol is None: tviol = time.time()
            if len(viols) >= check.max_violations or nviol >= 40 or len(errors) > 3 or \
               (tviol is not None and time.time() - tviol > (300 if THOROUGH else 15)):
                stop = True; break
        pool.terminate()
    try:
        check.teardown()
    except Exception: pass
    missing = [k for k, m in check.minimum.items() if counts.get(k, 0) < m]
    cov = {'evaluations': evals, 'distinct_nontrivial': len(nontriv), 'distinct': len(idents), 'rule': check.rule,
           'samples': samples, 'observed': counts}
    ev = {'property': check.prop, 'tier': TIER, 'seed': SEED, 'level': check.level, 'coverage': cov,
          'assumptions': list(check.assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', check.prop + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)
    for k in sorted(seenknown):
        print('KNOWN-FINDING: property=%s %s [key=%s]' % (check.prop, kn[k], k))
    rd = os.path.join(VERIF, 'replay')
    if viols:
        os.makedirs(rd, exist_ok=True)
        for j, (key, detail, data) in enumerate(viols[:check.max_violations]):
            path = os.path.join(rd, '%s-%s-%d-%d.json' % (check.prop, TIER, SEED, j))
            with open(path, 'w') as f:
                json.dump({'property': check.prop, 'key': key, 'detail': detail, 'tier': TIER, 'seed': SEED, 'data': data}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (check.prop, path))
            print('  %s: %s' % (key, detail[:1500].replace('\n', '\n    ')))
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %s violations, %.1fs %s' %
          (check.prop, TIER, SEED, evals, len(nontriv), nviol, time.time() - t0, json.dumps(counts, sort_keys=True)))
    if viols: return 1
    if errors:
        print('ERROR:\n' + '\n'.join(errors[:3])); return 2
    if missing and not stop:
        print('ERROR: inconclusive, observed too little: %s' % missing); return 2
    return 0
