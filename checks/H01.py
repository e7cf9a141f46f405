"""H01: every public header alone (twice, alone in its unit), in every configuration; no strong external definitions;
all headers together in both orders."""
import os, re, subprocess
import harness as H
from harness import Broken

CFG = {'sequential': [], 'mpi': H.MPI, 'mpi+all solver libraries': H.MPI + H.METIS + H.DIRECT,
       'sequential+direct solvers, checking': H.DIRECT + ['-DDUNE_ISTL_WITH_CHECKING', '-DDUNE_FMatrix_WITH_CHECKS']}
STRONG = re.compile(r'^define (?!linkonce|weak|internal|private|available_externally)')
STRONGV = re.compile(r'^@("[^"]*"|\S+) = (dso_local |local_unnamed_addr |unnamed_addr |thread_local(\([a-z]*\))? )*(global|constant|alias)')

def run(ctx):
    ctx.rule('R-alone', 'the header compiles as the only include of a source file, and may be included twice there')
    ctx.rule('R-linkage', 'the header emits no definition with strong external linkage (function, variable or explicit specialisation that is not inline)')
    ctx.rule('R-order', 'all headers compile together in one source file in either order')
    base = [x for x in H.BASE if x not in ('-fno-access-control', '-I' + os.path.join(H.HERE, 'drivers'))]
    hs = []
    for d, _, fs in os.walk(os.path.join(H.REPO, 'dune/istl')):
        if re.search(r'/tests?(/|$)', d): continue
        hs += [os.path.relpath(os.path.join(d, f), H.REPO) for f in fs if f.endswith('.hh')]
    hs.sort()
    if len(hs) < 60: raise Broken('only %d public headers found' % len(hs))
    def comp(src, c):
        return subprocess.run([H.CLANG] + base + CFG[c] + ['-O0', '-g1', '-S', '-emit-llvm', '-o', '-', '-x', 'c++', '-'], input=src, capture_output=True, text=True)
    def one(a):
        h, c = a
        p = comp('#include <%s>\n#include <%s>\n' % (h, h), c)
        if p.returncode: return h, c, p.stderr, []
        st = [l for l in p.stdout.split('\n') if STRONG.match(l) or (l.startswith('@') and STRONGV.match(l))]
        return h, c, None, st
    # the driver itself must notice a strong definition and an undeclared name
    p = comp('int vt_f(){return 1;} int vt_v=2; namespace { int a; } inline int vt_i(){return 1;} template<class T> T vt_t(T x){return x;} template<> int vt_t(int x){return x;}', 'sequential')
    st = [l for l in p.stdout.split('\n') if STRONG.match(l) or STRONGV.match(l)]
    if p.returncode or len(st) != 3: raise Broken('linkage self-test failed')
    seen = {}
    for h, c, err, st in ctx.pool.map(one, [(h, c) for h in hs for c in CFG]):
        e = re.search(r'(\S+?:\d+):\d+: (?:fatal )?error: (.*)', err or '')
        ctx.ob('R-alone', '%s [%s]' % (h, c), err is None, e.group(1) if e else h, e.group(2) if e else (err or '')[:300])
        for l in st:
            m = re.search(r'@("[^"]*"|[\w.$]+)', l); s = m.group(1).strip('"')
            if s in seen: continue
            seen[s] = h
            dem = subprocess.run(['c++filt', s], capture_output=True, text=True).stdout.strip()
            ctx.ob('R-linkage', '%s' % dem, False, h, 'defined with external linkage in a header, so two source files including it cannot be linked together')
        if err is None and not st: ctx.ob('R-linkage', '%s [%s]' % (h, c), True, h)
        if err is None: ctx.functions.add(h)
    def order(a):
        c, r = a
        l = hs[::-1] if r else hs
        p = comp(''.join('#include <%s>\n' % x for x in l), c)
        return c, r, p.stderr if p.returncode else None
    for c, r, err in ctx.pool.map(order, [(c, r) for c in CFG for r in (0, 1)]):
        e = re.search(r'(\S+?:\d+):\d+: (?:fatal )?error: (.*)', err or '')
        ctx.ob('R-order', '%s order [%s]' % ('reverse' if r else 'alphabetical', c), err is None, e.group(1) if e else '', e.group(2) if e else '')
    ctx.units += ['%d headers x %d configurations' % (len(hs), len(CFG))]
