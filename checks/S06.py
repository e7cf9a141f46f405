"""S06: value flow of the reduction member through every explicit-reduction solve, exceptional exits included."""
from solver import Solvers, NAMES
from paths import Paths, simp, lin_of, same_table, equal_under
from pairs import by_name
from events import head, offsets
from harness import Broken
from summary import LIN
import summary as S, re

def run(ctx):
    ctx.rule('R-request', 'on every path the solve started by an explicit-reduction call sees exactly the requested value in the reduction member')
    ctx.rule('R-once', 'an explicit-reduction call performs exactly one solve, with its own arguments')
    ctx.rule('R-restore', 'on every exit, normal or exceptional, the reduction member holds the value it had on entry')
    ctx.rule('R-readonly', 'no plain solve writes the reduction member')
    ctx.rule('R-criterion', 'the convergence decision of the iteration control uses the reduction member of the solver it belongs to')
    ctx.prefetch('s02_iter.cc')
    sv = Solvers(ctx); m = sv.m
    red = simp(sv.off['reduction'])
    slot, _ = sv.probes['solve'][:2]
    n = 0
    for f in m.functions.values():
        if not f.blocks: continue
        h = head(f.dem or ''); b = re.match(r'Dune::(\w+)::apply$', h)
        if not b or b.group(1) not in NAMES + ('IterativeSolver', 'CompleteFCGSolver') or len(f.params) != 5 or str(f.params[3][1]) != 'double': continue
        n += 1; ctx.functions.add(f.dem)
        explicit(ctx, sv, f, b.group(1), red)
    if not n: raise Broken('no explicit-reduction apply found')
    for s in sv.list:
        w = [e for L in s.evs.values() for e in L if e.kind == 'store' and e.args[0] == red]
        ctx.ob('R-readonly', '%s::apply' % s.name, not w, w[0].where() if w else m.where(next(s.fn.instrs())), 'the reduction member is overwritten during a solve')
    criterion(ctx)
    ctx.need('R-request', 1); ctx.need('R-restore', 1); ctx.need('R-readonly', 9); ctx.need('R-criterion', 2)

def explicit(ctx, sv, f, cls, red):
    m = sv.m
    bad = {'R-request': [], 'R-once': [], 'R-restore': []}
    def event(P, st, i, nm, args, callee=None):
        if nm == 'store': return None
        solve = None
        if nm == '*indirect':
            if norm(callee, P) == sv.probes['solve'][0]: solve = args[:4]
            elif norm(callee, P) == sv.probes['solve4'][0]: bad['R-once'].append((m.where(i), 'the explicit-reduction call calls itself'))
        elif re.match(r'Dune::\w+::apply$', head(nm)) and len(args) == 4: solve = args
        elif re.search(r'Iteration::Iteration$', head(nm)): solve = (args[1], ('p', 1), ('p', 2), args[2])
        if solve is None: return None
        v = P.load(st, red, 'double')
        if v != ('p', 3): bad['R-request'].append((m.where(i), 'the solve sees the reduction %s instead of the requested one' % S.show(v)))
        if tuple(solve) != (('p', 0), ('p', 1), ('p', 2), ('p', 4)): bad['R-once'].append((m.where(i), 'the solve is given %s' % [S.show(a) for a in solve]))
        st.trace = st.trace + (('solve', m.where(i)),)
        return None
    P = Paths(m, f, event=event, unwind=True)
    orig = ('ld', red, 'double')
    k = 0
    for l in P.leaves:
        if l.kind == 'throw': continue
        k += 1
        if l.kind == 'ret' and len(l.st.trace) != 1: bad['R-once'].append((l.where(), 'a path performs %d solves' % len(l.st.trace)))
        v = P.load(l.st, red, 'double')
        if v != orig and not equal_under(P, l.st.facts, v, orig): bad['R-restore'].append((l.where(), '%s leaves the reduction at %s' % ({'ret': 'a normal return', 'unwind': 'an exception'}[l.kind], S.show(v))))
    if not any(l.kind == 'unwind' for l in P.leaves): raise Broken('%s: no exceptional exit found' % f.dem)
    for r in bad:
        ctx.ob(r, '%s::apply with explicit reduction' % cls, not bad[r], bad[r][0][0] if bad[r] else m.where(next(f.instrs())), bad[r][0][1] if bad[r] else '')

def norm(x, P):
    """the table of virtual functions of an object does not change"""
    if not isinstance(x, tuple): return x
    x = tuple(norm(y, P) for y in x)
    return ('ld',) + x[1:3] if x and x[0] == 'ldv' else x

def criterion(ctx):
    m = ctx.module('s02_iter.cc'); d = by_name(m); off = offsets(m)
    quiet = [('icmp', 'sle', lin_of(('ld', simp(off['verbose']), 'i32')))]
    conv = S.subst(off['converged'], {('p', 0): ('p', 1)})
    for t, text in (('u', 'unsigned'), ('d', 'double')):
        A, B = (Paths(m, d['%s_run2_%s' % (k, t)], init=quiet) for k in 'ks')
        bad = same_table(A, B, [('converged', conv, 'i8')], events=False)
        ctx.ob('R-criterion', 'Iteration<%s>::step' % text, not bad, bad[0][1].where() if bad else '', bad[0][0] if bad else '')
