"""A01: movement between the levels of a multigrid hierarchy, cycles and transfer."""
from calls import table, CallPaths, compare_tables
from pairs import by_name, run_pairs
from events import offsets, events, EvView
from absint import Engine, IvView, entails, default_kill, root
from paths import simp, consistent, lin_of, lin_add, lin_scale
from summary import LIN, show
from M01 import rebase
from harness import Broken
import harness as H, re

FIELDS = ('smoother', 'matrix', 'pinfo', 'redist', 'aggregates', 'lhs', 'update', 'rhs')
CALLS = lambda nm: 'vt::' in nm and not nm.startswith('std::')
def run(ctx):
    ctx.rule('R-levels', 'moving one level down or up moves all data of the level context together, restricts or prolongs between exactly these two levels, and the two movements are inverse')
    ctx.rule('R-coarse', 'on the coarsest level the right-hand side is made consistent and the coarse solver is applied once, to the data of this level; its failure is recorded')
    ctx.rule('R-cycle', 'a cycle smooths, descends, runs the configured number of cycles on the coarser level, ascends and smooths, in this order and on one level context')
    ctx.rule('R-transfer', 'restriction adds every fine entry with an aggregate into that aggregate, prolongation adds the damped value of the aggregate to exactly these entries')
    ctx.rule('R-two', 'the two-level method and the Krylov-accelerated cycle smooth, restrict, solve on the coarser level, add the prolongated correction and smooth, on one level context, and own their policies and solvers')
    ctx.rule('R-smooth', 'every smoothing step updates solution and defect consistently and is repeated as often as requested')
    ctx.prefetch('a01_transfer.cc', H.MPI)
    m = ctx.module('a01_levels.cc'); d = by_name(m); off = offsets(m)
    for op in ('down', 'up', 'init', 'apply'):
        cells = [(f, simp(rebase(off[f], 1)), 'i64' if f == 'level' else 'ptr') for f in FIELDS + ('level',)] if op in ('down', 'up') else [(f, simp(rebase(off[f], 1)), 'ptr') for f in FIELDS] if op == 'init' else []
        table(ctx, m, d['k_' + op], d['s_' + op], 'R-levels', 'AMG::' + op, cells, calls=CALLS, detail=ctxfields(off))
    mgc = [f for f in m.functions.values() if f.blocks and re.search(r'^Dune::Amg::AMG<.*vt::Al<1>\s*>::mgc\(|^Dune::Amg::AMG<.*Al<1>\s*>::mgc\(', f.dem or '')]
    if len(mgc) != 1: raise Broken('multigrid cycle not found')
    coarse(ctx, m, mgc[0], d['s_coarse'], off)
    cycle(ctx, m, mgc[0], off)
    fast(ctx)
    two(ctx)
    run_pairs(ctx, 'a01_levels.cc', 'R-cycle', 'AMG', only=lambda n: n == 'additive')
    run_pairs(ctx, 'a01_transfer.cc', 'R-transfer', 'Transfer', H.MPI, only=lambda n: 'restrict' in n or 'prolong' in n, min=6)
    run_pairs(ctx, 'a01_transfer.cc', 'R-smooth', 'smoothing', H.MPI, only=lambda n: 'restrict' not in n and 'prolong' not in n, min=10)

def fast(ctx):
    m = ctx.module('a01_fast.cc'); d = by_name(m); off = offsets(m)
    F = ('matrix', 'pinfo', 'redist', 'aggregates', 'lhs', 'residual', 'rhs')
    for op in ('down', 'up', 'init', 'apply'):
        cells = [(f, simp(rebase(off[f], 1)), 'i64' if f == 'level' else 'ptr') for f in F + ('level',)] if op != 'apply' else []
        table(ctx, m, d['k_' + op], d['s_' + op], 'R-levels', 'FastAMG::' + op, cells, calls=CALLS, detail=ctxfields(off, F))
    mgc = [f for f in m.functions.values() if f.blocks and re.search(r'^(?:void )?Dune::Amg::FastAMG<.*Al<1>\s*>::mgc\(', f.dem or '')]
    if len(mgc) != 1: raise Broken('fast multigrid cycle not found')
    coarse(ctx, m, mgc[0], d['s_coarse'], off, 'FastAMG')
    cycle(ctx, m, mgc[0], off, 'FastAMG')

def two(ctx):
    m = ctx.module('a01_two.cc'); d = by_name(m); off = offsets(m); n = 0
    calls = lambda nm: CALLS(nm) or nm.startswith('*')
    def fields(P, st, nm, args):
        if not re.search(r'::(pre|post)smooth<Dune::Amg::TwoLevel', nm): return ()
        return tuple(P.load(st, simp(rebase(off['c' + x], args[0])), 'ptr') for x in ('smoother', 'lhs', 'rhs', 'update', 'pinfo', 'matrix'))
    T = {'ctor': [(x, simp(off[x]), 'i64' if 'Steps' in x else 'ptr') for x in ('operator_', 'policy_', 'preSteps_', 'postSteps_')]}
    T['copy'] = T['ctor']
    for k in sorted(d):
        if not k.startswith('k_'): continue
        table(ctx, m, d[k], d['s_' + k[2:]], 'R-two', {'k': 'Krylov cycle ', 'p': 'aggregation policy '}.get(k[2] if k[2:] in ('kapply', 'kamg', 'pdown', 'pup') else '', 'TwoLevelMethod ') + k[2:], T.get(k[2:], ()), calls=calls,
              detail=fields, pure=lambda nm: '__shared_count' in nm or '__shared_ptr' in nm)
        n += 1
    if n < 10: raise Broken('two-level functions not found')

def ctxfields(off, fields=FIELDS):
    def f(P, st, nm, args):
        if not nm.split('(')[0].endswith('::mgc'): return ()
        return tuple(P.load(st, simp(rebase(off[x], args[1])), 'ptr') for x in fields)
    return f

def coarse(ctx, m, fn, spec, off, name='AMG'):
    tr = lambda nm: 'InverseOperator' in nm
    A = CallPaths(m, fn, calls=CALLS, transparent=tr); B = CallPaths(m, spec, calls=CALLS, transparent=tr)
    ctx.functions.add(fn.dem[:120])
    other = [l for l in B.leaves if any(e[0] == 'other' for e in l.st.trace)]
    B.leaves = [l for l in B.leaves if l not in other]
    bad = []; keep = []
    for l in A.leaves:
        c = any(consistent(A, l.st.facts, b.st.facts) is not None for b in B.leaves)
        o = any(consistent(A, l.st.facts, b.st.facts) is not None for b in other)
        if c: keep.append(l)
        if c and o: bad.append(('%s does not depend on whether this is the coarsest level' % ([e[0] for e in l.st.trace],), l))
    if not keep: raise Broken('no path for the coarsest level')
    A.leaves = keep
    bad += compare_tables(A, B, [('coarsesolverconverged', simp(rebase(off['conv'], 0)), 'i8')])
    ctx.ob('R-coarse', name + ' coarsest level', not bad, bad[0][1].where() if bad else m.where(next(fn.instrs())), bad[0][0][:900] if bad else '%d paths' % len(keep))

def cycle(ctx, m, fn, off, name='AMG'):
    """typestate of one cycle with a counter of the coarser cycles"""
    v = IvView(m, fn); ctx.functions.add(fn.dem)
    evs = events(v, {})
    G = simp(off['gamma']); gamma = ('ld', G, 'i64'); n = ('ghost', 'cycles')
    C = ('p', 1); me = ('p', 0)
    fast = name == 'FastAMG'        # smooths the vectors given, once; the defect is updated while smoothing
    if not fast: steps = {'presmooth': ('ld', simp(off['presteps']), 'i64'), 'postsmooth': ('ld', simp(off['poststeps']), 'i64')}
    for L in evs.values():
        for e in L:
            if e.kind != 'call': continue
            k = re.match(r'(?:[\w ]+ )?Dune::Amg::(?:(?:Fast)?AMG<.*>::)?(presmooth|postsmooth|moveToCoarseLevel|moveToFineLevel|mgc)(?:<.*>)?\(', e.name)
            if k: e.kind = k.group(1)
            elif re.search(r'vt::Op::applyscaleadd\(', e.name): e.kind = 'defect'
            elif re.search(r'vt::Cc::prod\(', e.name): e.kind = 'prod'
    bad = {}; seen = {}
    def viol(e, t): bad.setdefault(t, e.where())
    def arg(e, k): return e.args[k] if k < len(e.args) else None
    matrix = simp(rebase(off['cmatrix'], 1)); lhs = simp(rebase(off['clhs'], 1)); rhs = simp(rebase(off['crhs'], 1))
    ld = lambda a: simp(('ld', a, 'ptr'))
    def delta(q, e, st):
        B, L = st; k = e.kind
        seen[k] = seen.get(k, 0) + 1
        if k in ('presmooth', 'postsmooth'):
            if fast:
                if tuple(e.args[:4]) != (me, C, ('p', 2), ('p', 3)): viol(e, '%s works on %s' % (k, [show(x) for x in e.args[1:]]))
            elif arg(e, 0) != C: viol(e, '%s works on %s' % (k, show(arg(e, 0))))
            if not fast and not equal(L, arg(e, 1), steps[k]): viol(e, '%s is repeated %s times' % (k, show(arg(e, 1))))
            want = {'presmooth': 'start', 'postsmooth': 'fine'}[k]
            if q not in (want,): viol(e, '%s in state %s' % (k, NAMES.get(q, q)))
            return [('pre' if k == 'presmooth' else 'done', [])]
        if k == 'moveToCoarseLevel':
            if arg(e, 0) != me or arg(e, 1) != C: viol(e, 'moves another context')
            if q != 'pre': viol(e, 'descends in state %s' % NAMES.get(q, q))
            if e.ins.res is None: viol(e, 'ignores whether this process takes part in the coarser level')
            return [(('down', e.ins.res, 'fresh'), [], [(n, LIN(0))])]
        if k == 'mgc':
            if arg(e, 0) != me or arg(e, 1) != C: viol(e, 'runs the coarser cycle on another context')
            if not isinstance(q, tuple): viol(e, 'coarser cycle in state %s' % NAMES.get(q, q)); return [(q, [])]
            if fast:
                if arg(e, 2) != ld(lhs) or arg(e, 3) != ld(rhs): viol(e, 'runs the coarser cycle on %s' % [show(x) for x in e.args[2:]])
            elif q[2] == 'cycled': viol(e, 'repeats the coarser cycle without updating the defect')
            if not truth(B, L, ('call', q[1])): viol(e, 'the coarser cycle is not limited to processes taking part in the coarser level')
            return [((q[0], q[1], 'cycled'), [], [(n, simp(LIN(1, [(n, 1)])))])]
        if k == 'defect':
            if isinstance(q, tuple) and q[2] == 'cycled':
                if arg(e, 0) != ld(matrix) or arg(e, 2) != ld(lhs) or arg(e, 3) != ld(rhs) or arg(e, 1) != ('f', -1.0): viol(e, 'updates the defect with %s' % [show(a) for a in e.args])
                return [((q[0], q[1], 'updated'), [])]
            viol(e, 'updates the defect in state %s' % (NAMES.get(q, q),)); return [(q, [])]
        if k == 'moveToFineLevel':
            if arg(e, 0) != me or arg(e, 1) != C: viol(e, 'moves another context')
            if not isinstance(q, tuple): viol(e, 'ascends in state %s' % NAMES.get(q, q)); return [('fine', [])]
            r = ('call', q[1])
            t, f = truth(B, L, r), truth(B, L, ('not', r))
            a = arg(e, 2)
            if not (a == r or t and a in (LIN(1), ('not', LIN(0))) or f and a == LIN(0)): viol(e, 'ascends with flag %s' % show(a))
            if fast and arg(e, 3) != ('p', 2): viol(e, 'adds the correction to %s' % show(arg(e, 3)))
            if q[2] == 'fresh':
                # nothing done on the coarser level: not taking part, or no cycle requested
                if not f and not entails(L, lin_of(gamma)): viol(e, 'ascends without a cycle on the coarser level')
            elif not (entails(L, lin_add(gamma, n, -1)) and entails(L, lin_add(n, gamma, -1))) and not atcoarse(L, B, matrix, off):
                viol(e, 'the number of cycles on the coarser level is neither the configured one nor ended by the coarsest level')
            return [('fine', [])]
        if k == 'ret':
            if q not in ('done', 'start'): viol(e, 'returns %s' % NAMES.get(q, q))
            if q == 'start' and not atcoarse(L, B, matrix, off): viol(e, 'a level is left without smoothing although it is not known to be the coarsest')
            return [(q, [])]
        return [(q, [])]
    def kill(e):
        if e.kind in ('moveToCoarseLevel', 'moveToFineLevel'): return lambda y: y[0] == 'ld' and root(y[1]) == C
        if e.kind in ('mgc', 'presmooth', 'postsmooth', 'defect', 'prod'): return None
        return default_kill(e)
    eng = Engine(v, evs, delta, kill=kill, normal_only=True, ghost=(n,), init_facts=[LIN(0, [(gamma, -1)])])
    rel = eng.relevant
    eng.relevant = lambda t: True
    eng.run('start')
    for k in ('presmooth', 'postsmooth', 'moveToCoarseLevel', 'moveToFineLevel', 'mgc', 'ret'):
        if not seen.get(k): ctx.ob('R-cycle', name + '::mgc: ' + k, False, m.where(next(fn.instrs())), 'never happens')
        else: ctx.ob('R-cycle', name + '::mgc: ' + k, True, m.where(next(fn.instrs())), '')
    for t, w in sorted(bad.items()): ctx.ob('R-cycle', name + '::mgc: ' + t, False, w, t)

NAMES = dict(start='before smoothing', pre='smoothed, on the fine level', fine='back on the fine level', done='finished')
def equal(L, a, b): return entails(L, lin_add(lin_of(a), lin_of(b), -1)) and entails(L, lin_add(lin_of(b), lin_of(a), -1))
def truth(B, L, c): return c in B or (c[0] == 'call' and (entails(L, LIN(1, [(c, -1)])))) or (c[0] == 'not' and entails(L, LIN(0, [(c[1], 1)])))
def atcoarse(L, B, matrix, off):
    """the context is known to be on the coarsest level: its matrix is the coarsest one and the hierarchy ends there"""
    def eq(x, y):
        d = lin_add(lin_of(x), lin_of(y), -1)
        return ('icmp', 'eq', d) in B or ('icmp', 'eq', lin_scale(d, -1)) in B or equal(L, x, y)
    return eq(('ld', matrix, 'ptr'), off['coarsest']) and eq(('ld', simp(off['levels']), 'i64'), ('ld', simp(off['maxlevels']), 'i64'))
