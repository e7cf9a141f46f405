"""Common machinery of all checks: compile driver units from /repo's current tree to LLVM IR, collect obligations,
report violations / known findings, write evidence."""
import os, sys, subprocess, tempfile, time, json, hashlib, shutil, atexit, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(HERE, 'lib'))
import ir as IR

CLANG = 'clang++-18'
BASE = ['-std=c++20', '-fno-access-control', '-w', '-I'+os.path.join(HERE, 'drivers/include'), '-I'+os.path.join(HERE, 'drivers'),
        '-I'+REPO, '-isystem', '/opt/dune/prefix/include']
OPT = ['-O1', '-g1', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-mllvm', '-inline-threshold=20000',
       '-mllvm', '-inlinecold-threshold=20000', '-ffp-contract=off', '-fno-math-errno']
MPI = ['-DHAVE_MPI=1', '-DMPICH_SKIP_MPICXX', '-DOMPI_SKIP_MPICXX=1', '-DMPIPP_H', '-DMPI_NO_CPPBIND=1', '-D_MPICC_H',
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
METIS = ['-DHAVE_METIS=1', '-DHAVE_PARMETIS=1', '-DMETIS_API_VERSION=5']
DIRECT = ['-DHAVE_SUPERLU=1', '-DHAVE_SUITESPARSE_UMFPACK=1', '-DHAVE_SUITESPARSE_LDL=1', '-DHAVE_SUITESPARSE_SPQR=1',
          '-DHAVE_SUITESPARSE_CHOLMOD=1', '-DHAVE_SUITESPARSE_AMD=1', '-isystem', '/usr/include/superlu', '-isystem', '/usr/include/suitesparse']

PLAIN = '@plain'          # pseudo flag: local variables in registers, otherwise the control flow as written; no inlining
PLAINOPT = ['-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-DNDEBUG', '-ffp-contract=off', '-fno-math-errno']
STRONG = '@strong'        # pseudo flag: everything inlined, loops of constant length unrolled
STRONGOPT = ['-O3', '-g1', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno'] + [x for o in (
    'inline-threshold', 'inlinecold-threshold', 'locally-hot-callsite-threshold', 'hot-callsite-threshold') for x in ('-mllvm', '-%s=400000' % o)]
STRONGPASS = 'function(loop-mssa(licm),loop-unroll<O3;upperbound>),default<O3>'
class Broken(Exception):
    """the analysis cannot give an answer (vanished anchor, unrecognised shape, compile error)"""

def _treehash(extra):
    h = hashlib.sha256(repr(extra).encode())
    for root in (os.path.join(REPO, 'dune'), os.path.join(HERE, 'drivers')):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hh', '.cc', '.h', '.in')) and '/test' not in d:
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

class Ctx:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vt_%s_' % prop)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.obs = []          # (rule, instance, ok, where, detail)
        self.units = []; self.functions = set(); self.rules = {}
        self.assumptions = []; self.extra = {}
        self.brk = []
        self.pool = ThreadPoolExecutor(8)
        self.fut = {}

    # ---------------------------------------------------------------- compilation
    def _ll(self, src, flags):
        plain = PLAIN in flags; strong = STRONG in flags; flags = [f for f in flags if f not in (PLAIN, STRONG)]
        args = [CLANG] + BASE + (PLAINOPT if plain else STRONGOPT if strong else OPT) + list(flags)
        cache = os.environ.get('VT_CACHE')
        tag = hashlib.sha256(repr((src, flags)).encode()).hexdigest()[:16]
        out = os.path.join(self.tmp, os.path.basename(src).replace('.cc', '') + '_' + tag + '.ll')
        if cache:
            os.makedirs(cache, exist_ok=True)
            c = os.path.join(cache, _treehash(args + [src]) + '.ll')
            if os.path.exists(c): return c, None
            out = c + '.tmp%d' % os.getpid()
        p = subprocess.run(args + ['-S', '-emit-llvm', src, '-o', out], capture_output=True, text=True)
        if p.returncode: return None, p.stderr
        if plain or strong:
            p = subprocess.run(['opt-18', '-S', '-passes=' + (STRONGPASS if strong else 'function(sroa,early-cse,instsimplify,adce)'), out, '-o', out], capture_output=True, text=True)
            if p.returncode: return None, p.stderr
        if cache: os.rename(out, c); out = c
        return out, None
    def prefetch(self, driver, flags=()):
        src = os.path.join(HERE, 'drivers', driver)
        k = (src, tuple(flags))
        if k not in self.fut: self.fut[k] = self.pool.submit(self._ll, src, tuple(flags))
        return self.fut[k]
    def module(self, driver, flags=()):
        f, err = self.prefetch(driver, flags).result()
        if f is None:
            raise Broken('driver %s does not compile against the current tree:\n%s' % (driver, err[:3000]))
        m = IR.Module(f).demangle()
        m.driver = driver
        self.units.append(driver + (' [' + ' '.join(x for x in flags if x.startswith('-D')) + ']' if flags else ''))
        return m

    # ---------------------------------------------------------------- obligations
    def rule(self, rid, text): self.rules[rid] = text
    def ob(self, rule, instance, ok, where='', detail=''):
        self.obs.append((rule, instance, bool(ok), where, detail))
        return ok
    def broken(self, msg): self.brk.append(msg)
    def need(self, rule, n):
        k = sum(1 for o in self.obs if o[0] == rule)
        if k < n: self.broken('rule %s matched %d instances, expected at least %d' % (rule, k, n))

    # ---------------------------------------------------------------- end
    def finish(self):
        known, fixed = load_known(self.prop)
        bad = [o for o in self.obs if not o[2]]
        viol = []; seen = set()
        for o in bad:
            key = '%s|%s' % (o[0], o[1])
            if key in known:
                if key not in seen: print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, known[key], o[3]))
                seen.add(key); continue
            if key in seen: continue
            seen.add(key); viol.append(o)
        nok = sum(1 for o in self.obs if o[2])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='other',
                  coverage=dict(explanation='static analysis of the LLVM IR / source of the driver units named below, compiled from the current tree; no code of the library is executed. '
                                'Every obligation is one rule instance decided on this run.',
                                obligations=len(self.obs), discharged=nok, units=self.units, functions_analysed=len(self.functions),
                                rules={r: dict(text=t, instances=sum(1 for o in self.obs if o[0] == r)) for r, t in self.rules.items()},
                                samples=[dict(rule=o[0], instance=o[1], ok=o[2], where=o[3], detail=str(o[4])[:400]) for o in sample(self.obs)], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time()-self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(os.environ.get('VT_EVID', HERE), 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(os.environ.get('VT_EVID', HERE), 'evidence', self.prop + '.json'), 'w'), indent=1)
        if viol:
            rp = os.path.join(os.environ.get('VT_EVID', HERE), 'evidence', self.prop + '_violations.txt')
            with open(rp, 'w') as f:
                for o in viol:
                    f.write('rule %s: %s\n  instance: %s\n  at: %s\n  %s\n\n' % (o[0], self.rules.get(o[0], ''), o[1], o[3], str(o[4]).replace('\n', '\n  ')))
            for o in viol:
                print('%s: rule %s violated by %s\n    %s' % (o[3] or '?', o[0], o[1], str(o[4])[:3000].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            for b in self.brk: print('note: analysis incomplete: ' + b)
            return 1
        if self.brk:
            for b in self.brk: print('ANALYSIS-BROKEN property=%s %s' % (self.prop, b))
            return 2
        if not self.obs:
            print('ANALYSIS-BROKEN property=%s no obligations' % self.prop); return 2
        print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (self.prop, len(self.obs), len(self.functions), time.time()-self.t0))
        return 0

def sample(obs):
    out = []; seen = {}
    for o in obs:
        seen[o[0]] = seen.get(o[0], 0) + 1
        if seen[o[0]] <= 3: out.append(o)
    return out

def load_known(prop):
    known = {}; fixed = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l)
            if m and m.group(1) == prop: known[m.group(2)] = m.group(3)
            m = re.match(r'fixed: property=(\S+) (.*)$', l)
            if m and m.group(1) == prop: fixed.append(m.group(2))
    return known, fixed
