"""S05: verbosity flows only into output."""
import re
import harness as H
from effects import Eff
from flow import Flow, PRINT
from M04 import short
from harness import Broken
from events import offsets
from summary import lin_const, lin_of, lin_add

NOINL = (H.PLAIN,)
TIME = r'std::chrono::|clock$|Dune::Timer::'
HARMLESS = re.compile(r'^(operator (new|delete)|%s|__cxa_(begin_catch|end_catch|guard|demangle|atexit|free)|free$|str(len|cmp)$|(std::)?(sqrt|pow|log|exp|fabs|abs)|printf$|fprintf$|puts$|putchar$|fflush$|snprintf$|vsnprintf$|mem(cpy|chr|cmp|set|move)$|std::__throw_|std::terminate|__clang_call_terminate|std::__cxx11::basic_string|std::to_string|std::type_info|typeinfo)' % TIME)
COLL = re.compile(r'^(MPI_(Allreduce|Barrier|Allgatherv?|Gatherv?|Bcast|Reduce|Scan)|MPI_Type_|MPI_Op_|MPI_Comm_(rank|size)$|MPI_Initialized|MPI_Finalized)')
CC = re.compile(r'(Dune::Communication<[^()]*>|FutureComm\w*)::(sum|prod|min|max|allreduce|barrier|broadcast|gatherv?|scatterv?|allgatherv?|i\w+)(<[^()]*>)?\(')      # dune-common's interface to collective operations
NOEFF = re.compile(r'^MPI_(Comm_(rank|size)|Type_|Op_|Init|Final)')

class Verb(Flow):
    def __init__(self, ctx, m, E, src, pars, outs=(), report=None):
        Flow.__init__(self, m, E); self.ctx = ctx; self.src = src; self.pars = pars; self.outs = outs; self.found = []; self.harmm = {}; self.report = report
        self.accessors = {slot(m, f, i) for f in m.functions.values() if f.dem and f.dem.startswith('vok_') for i in f.instrs() if i.op == 'call' and i.callee.kind != 'global'} - {None}
    def source(self, fn, i): return '!tbaa' in i.text and self.E.field(i) in self.src
    def is_target(self, fn, i):
        if '!tbaa' in i.text and self.E.field(i) in self.src: return True
        for c, o in self.outs:
            if re.match(c, fn.dem):
                os = self.E.of(fn.name).val(i.ops[1])
                if os and all(x == (('p', 0), o) for x in os): return True
        return False
    def params(self, fn):
        for rx, ks in self.pars:
            if fn.dem and re.search(rx, fn.dem):
                n = len(fn.params); return frozenset(k if k >= 0 else n + k for k in ks)
        return frozenset()
    def bad(self, A, i, text): self.found.append((A.fn, i, text))
    def store_taint(self, A, i, roots): self.bad(A, i, 'memory that outlives the call is modified depending on the verbosity')
    def call_with_taint(self, A, i, dem, args):
        if not HARMLESS.search(dem) and not (self.report and self.report.search(dem)): self.bad(A, i, '%s is called with a value that depends on the verbosity' % short(dem))
    def call_in_region(self, A, i, dem):
        if dem == '<indirect>':
            if slot(self.m, A.fn, i) in self.accessors: return
            self.bad(A, i, 'a virtual function is called depending on the verbosity'); return
        if self.report and self.report.search(dem): return
        f = self.m.functions.get(i.callee.v)
        if re.match(r'__cxa_(throw|rethrow|allocate_exception)', dem): self.bad(A, i, 'an exception is thrown depending on the verbosity'); return
        what = {'collective'} if CC.search(dem) else self.harm(i.callee.v) if f is not None and f.blocks else self.opaque(dem)
        for w in what:
            if w == 'collective':
                if self.rankdep(A, i): self.bad(A, i, 'only some processes take part in a communication that depends on the verbosity')
            else: self.bad(A, i, w)
    def opaque(self, dem):
        if PRINT.search(dem) or HARMLESS.search(dem): return set()
        if self.report and self.report.search(dem): return set()
        if NOEFF.search(dem): return set()
        if COLL.search(dem): return {'collective'}
        if dem.startswith('__cxa_throw'): return set()
        return {'%s is called depending on the verbosity' % short(dem)}
    def harm(self, nm):
        if nm in self.harmm: return self.harmm[nm]
        self.harmm[nm] = set(); out = set()
        for i in self.m.functions[nm].instrs():
            if i.op not in ('call', 'invoke'): continue
            if m_refcount(self.m, i): continue
            if i.callee.kind != 'global':
                out.add('a virtual function is called depending on the verbosity'); continue
            c = i.callee.v; d = self.m.dem.get(c, c)
            if c.startswith('llvm.') or PRINT.search(d) or HARMLESS.search(d): continue
            g = self.m.functions.get(c)
            if CC.search(d): out.add('collective'); continue
            out |= self.harm(c) if g is not None and g.blocks else self.opaque(d)
        self.harmm[nm] = out
        return out
    def rankdep(self, A, i):
        for b in A.regions(i.block.name):
            if self.from_rank(A, A.fn.blocks[b].instrs[-1].ops[0], set()): return True
        return False
    def from_rank(self, A, v, seen):
        if v.kind != 'local' or v.v in seen: return False
        seen.add(v.v)
        if not hasattr(A, 'defs'): A.defs = {j.res: j for j in A.fn.instrs() if j.res is not None}
        j = A.defs.get(v.v)
        if j is None: return False
        if j.op in ('call', 'invoke'):
            d = self.m.dem.get(j.callee.v, '') if j.callee.kind == 'global' else ''
            if re.search(r'::rank\(\)', d): return True
            if re.search(r'::size\(\)', d) and 'Communication' in d: return False
            return not re.search(r'::(sum|max|min|prod)<', d) and any(self.from_rank(A, x, seen) for x in j.ops)
        if j.op == 'load': return any(self.from_rank_store(A, r, seen) for r, o in A.origins(j.ops[0]) if r[0] == 'al')
        if j.op == 'phi': return any(self.from_rank(A, x, seen) for x in j.ops)
        return any(self.from_rank(A, x, seen) for x in j.ops)
    def from_rank_store(self, A, r, seen):
        if r in seen: return False
        seen.add(r)
        return any(k.op == 'store' and any(q == r for q, o in A.origins(k.ops[1])) and self.from_rank(A, k.ops[0], seen) for k in A.fn.instrs())

def slot(m, fn, i):
    """virtual function table entry, result type and argument count of a virtual call"""
    d = {j.res: j for j in fn.instrs() if j.res is not None}
    f = d.get(i.callee.v) if i.callee.kind == 'local' else None
    if f is None or f.op != 'load': return None
    g = d.get(f.ops[0].v) if f.ops[0].kind == 'local' else None
    if g is None: return None
    if g.op == 'load': return (0, str(i.ty), len(i.ops))
    if g.op != 'getelementptr' or len(g.ops) != 2 or g.ops[1].kind != 'const': return None
    return (g.ops[1].v, str(i.ty), len(i.ops))

def m_refcount(m, i): return (m.loc(i.dbg)[0] or '').endswith(('ext/atomicity.h', 'bits/shared_ptr_base.h'))

def offset(m, name):
    return int(lin_const(lin_add(lin_of(offsets(m, 'out_')[name[4:]]), lin_of(('p', 0)), -1)))

def sources(m, E):
    src = set()
    for f in m.functions.values():
        if f.dem and re.match(r'ver_', f.dem):
            n = len(src)
            for i in f.instrs():
                if i.op == 'load' and i.ty != 'ptr' and E.field(i): src.add(E.field(i))
            if len(src) == n and not any(E.field(i) in src for i in f.instrs() if i.op == 'load'): raise Broken('verbosity member behind %s not identified' % f.dem)
    if not src: raise Broken('no verbosity member')
    return src

def analyse(ctx, m, driver, pars=(), report=None, outs=()):
    E = Eff(m); src = sources(m, E); F = Verb(ctx, m, E, src, pars, outs=outs, report=report); n = 0; tainted = 0
    for nm in sorted(m.functions):
        f = m.functions[nm]
        if not f.blocks or not f.dem or re.match(r'(ver|out)_', f.dem): continue
        own = any(F.source(f, i) for i in f.instrs() if i.op == 'load') or F.params(f)
        if not own and not any(i.op in ('call', 'invoke') and i.callee.kind == 'global' and re.search(r'debugLevel|[vV]erb', m.dem.get(i.callee.v, '')) for i in f.instrs()): continue
        F.of(nm); 
    for (nm, tp), A in list(F.memo.items()):
        if not A.V and not A.B: continue
        n += 1; lab = short(A.fn.dem)
        ctx.functions.add((driver, lab))
        bad = [(i, t) for g, i, t in F.found if g is A.fn]
        for i, t in bad: ctx.ob('R-output', lab, False, m.where(i), t)
        if not bad: ctx.ob('R-output', lab, True, '', '%d branches, %d regions' % (sum(1 for b in A.cfg.succ if A.branch_tainted(b)), len(A.B)))
    return n

def run(ctx):
    ctx.rule('R-output', 'what depends on the verbosity is only printed: no stored or returned value, no exception, no virtual call, and no communication of only some of the processes depends on it')
    ctx.prefetch('s05_amg.cc', H.MPI + H.METIS + H.DIRECT + list(NOINL)); ctx.prefetch('s05_direct.cc', H.DIRECT + list(NOINL))
    m = ctx.module('s05_solver.cc', NOINL)
    n = analyse(ctx, m, 's05_solver.cc')
    if n < 10: raise Broken('only %d functions depend on the verbosity of solvers' % n)
    m = ctx.module('s05_amg.cc', H.MPI + H.METIS + H.DIRECT + list(NOINL))
    n = analyse(ctx, m, 's05_amg.cc', pars=[(r'\b(commGraphRepartition|graphRepartition|buildCommunication)<', (-1,))])
    if n < 6: raise Broken('only %d functions depend on the verbosity of multigrid' % n)
    m = ctx.module('s05_direct.cc', H.DIRECT + list(NOINL))
    n = analyse(ctx, m, 's05_direct.cc', report=re.compile(r'^(amd_info|umfpack_\w*report_\w+|Dune::UMFPackMethodChooser<.*>::report_|Print\w*|StatPrint|[sdcz]QuerySpace$)'), outs=[(r'Dune::UMFPack<', offset(m, 'out_umf'))])
    if n < 6: raise Broken('only %d functions depend on the verbosity of direct solvers' % n)
