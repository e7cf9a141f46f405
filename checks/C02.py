"""C02: whether a process enters a collective operation depends on values only that are equal on all processes."""
import re
import harness as H
from effects import Eff
from flow import Flow
from M04 import short
from S05 import slot
from harness import Broken

FL = (H.PLAIN,)
MPIC = re.compile(r'^MPI_(I?(Allreduce|Barrier|Allgatherv?|Gatherv?|Bcast|Reduce|Scan|Exscan|Scatterv?|Alltoallv?w?)|Comm_(split|dup|create)\w*)$')
CC = re.compile(r'(?:^|[ :])Dune::(?:Communication<[^()]*>::|Future)(sum|prod|min|max|allreduce|barrier|broadcast|gatherv?|scatterv?|allgatherv?|i\w+)(<[^()]*>)?\(')
CLEAN = re.compile(r'Dune::Communication<[^()]*>::(sum|prod|min|max|allreduce|size|broadcast|allgatherv?|barrier)(<.*>)?\(|LevelIterator|^ParMETIS|^METIS|::category(<.*>)?\(|^(bool )?Dune::(Amg::)?(repartitionAndDistributeMatrix|graphRepartition|commGraphRepartition|buildCommunication)<|::moveToCoarseLevel\(|Dune::RedistributeInformation<.*>::isSetup\(')
LOCALRES = re.compile(r'Dune::Communication<[^()]*>::rank\(|^(?:[^()]* )?(Dune::(Imp::block_vector_unmanaged|BlockVector|Imp::base_array_unmanaged|VariableBlockVector|MultiTypeBlockVector)<.*>::(\w*norm\w*|dot|operator\*|size|N|dim)\()')
LOCALOUT = {'MPI_Comm_rank': [1], 'MPI_Recv': [0, 6], 'MPI_Probe': [3], 'MPI_Scatter': [3], 'MPI_Get_count': [2]}
UNIFORM = re.compile(r'^_ZTSN4Dune(3Amg)?(9HierarchyI|15MatrixHierarchyI|23RedistributeInfo|13Communication|3AMGI|7FastAMGI|\d+\w*(Parameters|Solver)(I|E$)|15IterativeSolverI|21InverseOperatorResult)')       # data that are equal on all processes: parameters, communicator sizes, the shape of the hierarchy, results of measurements
UNIFORMT = re.compile(r'Dune::(Amg::)?(Hierarchy|MatrixHierarchy|RedistributeInformation|Communication|AMG|FastAMG|\w*Parameters|\w*Solver|InverseOperatorResult)(\.\d+)*"?$')
METHOD = re.compile(r'(?:[\w:&* ]+ )?Dune::(Amg::)?(Hierarchy|MatrixHierarchy|RedistributeInformation|Communication|AMG|FastAMG|\w*Parameters|\w*Solver|InverseOperatorResult)::~?\w+\(')
COPY = re.compile(r'^(?:[^()]* )?std::(__copy_move\w*|copy|__uninitialized_\w+|uninitialized_\w+|__fill\w*|fill\w*|__niter\w*|__miter\w*|_Construct|construct_at)<')     # hand values on from one range to another; the ranges are judged where they are handed over
UNDEFINED = -32766       # MPI_UNDEFINED: the colour of processes that stay outside a new communicator

class Uni(Flow):
    memory = True
    def __init__(self, ctx, m, E, virtual=None):
        Flow.__init__(self, m, E); self.ctx = ctx; self.virtual = virtual; self.found = []; self.collm = {}; self.tyn = {}; self.memb = {}
    def tyname(self, i):
        f = self.E.field(i)
        if not f: return ''
        if f[0] not in self.tyn:
            x = re.match(r'!\{!"([^"]*)"', self.m.meta.get(f[0], '')); self.tyn[f[0]] = x.group(1) if x else ''
        return self.tyn[f[0]]
    def source(self, fn, i):
        if i.ty == 'ptr' or '!tbaa' not in i.text or COPY.search(fn.dem or ''): return False
        os = self.E.of(fn.name).val(i.ops[0])
        if not os or all(r[0] in ('al', 'new') for r, o in os): return False
        if all(r == ('p', 0) or r[0] in ('al', 'new') for r, o in os) and self.member(fn): return False
        return not UNIFORM.search(self.tyname(i))
    def member(self, fn):
        """member function of a class whose own data are uniform"""
        if fn.name not in self.memb: self.memb[fn.name] = bool(METHOD.match(short(fn.dem or '')))
        return self.memb[fn.name]
    def clean_result(self, dem): return bool(CLEAN.search(dem))
    def tainted_result(self, dem): return bool(LOCALRES.search(dem))
    def cleans(self, i): return i.op == 'icmp' and any(x.kind == 'const' and x.v == UNDEFINED for x in i.ops)
    def uniform_ptr(self, A, v):
        j = A.definition(v)
        return j is not None and j.op == 'getelementptr' and isinstance(j.gepty, tuple) and j.gepty[0] == 'named' and bool(UNIFORMT.search(j.gepty[1]))
    def outputs(self, dem): return LOCALOUT.get(dem, ())
    def collective(self, nm):
        """the function performs a collective operation"""
        if nm in self.collm: return self.collm[nm]
        self.collm[nm] = False
        d = self.m.dem.get(nm, nm); f = self.m.functions.get(nm)
        r = bool(MPIC.match(d) or CC.search(d))
        if not r and f is not None and f.blocks: r = any(self.site(i) for i in f.instrs())
        self.collm[nm] = r
        return r
    def site(self, i):
        if i.op not in ('call', 'invoke'): return False
        if i.callee.kind != 'global': return bool(self.virtual) and self.virtual(self.m, i)
        return not i.callee.v.startswith('llvm.') and self.collective(i.callee.v)
    def call_in_region(self, A, i, dem):
        if not self.site(i): return
        self.found.append((A, i, 'a component that communicates is called' if dem == '<indirect>' else '%s is entered' % short(dem)))

def own(w): return w.startswith((H.REPO, '/repo')) 

def scalars(fn):
    """parameters that are references to single numbers"""
    d = fn.dem or ''; e = d.rfind(')'); k = e; depth = 0
    while k >= 0:
        depth += (d[k] == ')') - (d[k] == '(')
        if depth == 0: break
        k -= 1
    L = []; depth = 0; cur = ''
    for c in d[k + 1:e] + ',':
        if c == ',' and depth == 0: L.append(cur.strip()); cur = ''; continue
        depth += (c in '<([') - (c in '>)]'); cur += c
    sh = len(fn.params) - len(L)
    return frozenset(i + sh for i, x in enumerate(L) if re.match(r'(unsigned |signed )?(int|long|short|char|bool|double|float)( const)?&$', x))

def analyse(ctx, m, driver, virtual=None):
    F = Uni(ctx, m, Eff(m), virtual); n = 0
    coll = [nm for nm, f in sorted(m.functions.items()) if f.blocks and F.collective(nm)]
    called = {i.callee.v for nm in coll for i in m.functions[nm].instrs() if i.op in ('call', 'invoke') and i.callee.kind == 'global' and i.callee.v != nm}
    for nm in coll:
        if nm not in called: F.of(nm, (), scalars(m.functions[nm]))
    for nm in coll:
        if not any(k[0] == nm for k in F.memo): F.of(nm)
    per = {}
    for A, i, t in F.found:
        w = m.where(i)
        if not own(w): continue
        c = sorted({m.where(A.fn.blocks[b].instrs[-1]).split('/')[-1] for b in A.regions(i.block.name) if A.branch_tainted(b)})
        per.setdefault(A.fn.name, []).append((i, t + ' only under a condition on values that may differ between processes (%s)' % ', '.join(c[:4])))
    for nm, f in sorted(m.functions.items()):
        if not f.blocks or not F.collective(nm): continue
        sites = [i for i in f.instrs() if F.site(i) and own(m.where(i))]
        if not sites: continue
        n += len(sites); lab = short(f.dem); ctx.functions.add((driver, lab))
        seen = set()
        for i, t in per.get(nm, []):
            if (id(i)) in seen: continue
            seen.add(id(i)); ctx.ob('R-uniform', lab, False, m.where(i), t)
        if not seen: ctx.ob('R-uniform', lab, True, m.where(sites[0]), '%d collective call sites' % len(sites))
    return n

def slots(m, pre):
    out = set()
    for f in m.functions.values():
        if f.blocks and f.dem and re.match(pre, f.dem):
            for i in f.instrs():
                if i.op in ('call', 'invoke') and i.callee.kind != 'global': out.add(slot(m, f, i))
    return out

def component(m):
    """virtual calls of operators, preconditioners, scalar products and solvers that communicate, by table entry and signature"""
    com, loc = slots(m, 'com_'), slots(m, 'loc_')
    if len(com) < 6 or None in com or com & loc: raise Broken('virtual functions of the components not identified')
    return lambda m, i: (slot(m, i.block.fn, i) or 0) in com

def run(ctx):
    ctx.rule('R-uniform', 'no collective operation, and no function that performs one, is entered under a condition that depends on the rank, on local sizes or on local data; results of collective operations, parameters and the shape of the hierarchy are uniform')
    ctx.prefetch('c02.cc', H.MPI + H.METIS + list(FL))
    m = ctx.module('c02_solver.cc', FL)
    n = analyse(ctx, m, 'c02_solver.cc', component(m))
    if n < 100: raise Broken('only %d calls of components in the solvers' % n)
    m = ctx.module('c02.cc', H.MPI + H.METIS + list(FL))
    n = analyse(ctx, m, 'c02.cc')
    if n < 60: raise Broken('only %d collective call sites' % n)
