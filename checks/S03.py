"""S03: termination and stopping of the iterative solvers, by path-sensitive abstract interpretation."""
from solver import Solvers, SView, engine, parallel, WORK, allev
from summary import walk, lin_of
from absint import IvView, Engine, entails, default_kill, root, LIN, lin_add, lin_const, lin_scale
from events import events, EvView, head
from harness import Broken
import summary as S

def run(ctx):
    ctx.rule('R-limit', 'every defect measurement reported as iteration c satisfies c <= maximum iteration count on every feasible path')
    ctx.rule('R-advance', 'the iteration number reported grows from one measurement to the next')
    ctx.rule('R-progress', 'every feasible pass through a loop that is not a counted loop reports an iteration')
    ctx.rule('R-stop', 'once the stopping test has succeeded no further operator or preconditioner application and no further measurement is reachable')
    ctx.rule('R-fresh', 'after the solution changed without a matching defect update, the residual is recomputed from the right-hand side and the new solution before it is used')
    ctx.rule('R-helper', 'helper routines of the restarted FCG solvers leave the direction index within its bounds')
    ctx.assumptions.append('restart >= 1 and mmax >= 0; operator, preconditioner and scalar product calls terminate and do not modify the solver object')
    sv = Solvers(ctx, SView)
    parallel(ctx, sv.list, lambda s: limits(ctx, sv, s))
    helpers(ctx, sv)
    ctx.need('R-limit', 9); ctx.need('R-advance', 9); ctx.need('R-progress', 9); ctx.need('R-stop', 20); ctx.need('R-fresh', 2)

GH = ('gh',)
def counted_loop(v, h):
    """some test executed on every pass leaves the loop once an induction variable has passed a fixed bound"""
    body = v.loops[h]
    latch = [p for p in v.u.pred[h] if p in body]
    inside = {i.res for b in body for i in v.fn.blocks[b].instrs if i.res}
    def varies(x): return any(isinstance(y, tuple) and len(y) == 2 and (y[0] in ('phi', 'lv', 'flv', 'call') and y[1] in inside or y[0] == 'it' and y[1] in body) for y in walk(x))
    def counts(c):
        if not isinstance(c, tuple) or not c: return False
        if c[0] == 'or': return any(counts(x) for x in c[1:])
        if c[0] != 'icmp': return False
        d = strip(c[2]); k = dict(d[2]).get(('it', h), 0)
        rest = LIN(d[1], [(t, q) for t, q in d[2] if t != ('it', h)])
        if k == 0 or varies(rest): return False
        return c[1] == 'eq' or c[1][1:] == 'ge' and k > 0 or c[1][1:] == 'le' and k < 0
    for b in body:
        t = v.fn.blocks[b].instrs[-1]
        if t.op == 'br' and len(t.targets) == 2 and all(v.cfg.dominates(b, l) for l in latch):
            out = [x for x in t.targets if x not in body]
            if len(out) == 1:
                c = v.canon(t.ops[0])
                if counts(c if t.targets[0] == out[0] else v.neg(c)): return True
    return False
def strip(d):
    """linear form with integer width conversions removed"""
    r = LIN(d[1])
    for t, q in d[2]:
        while isinstance(t, tuple) and t and t[0] in ('trunc', 'sext', 'zext'): t = t[-1] if isinstance(t[-1], tuple) else t[1]
        r = lin_add(r, lin_of(t), q)
    return r

def limits(ctx, sv, s):
    v = s.v; n = s.name
    off = sv.off
    maxit = ('ld', off['maxit'], 'i32')
    dbl = any(e.kind == 'step' and 'step(double' in e.name for e in allev(s))
    scale = 2 if dbl else 1
    def asint(x):
        if dbl: return v.twice(x)
        return x
    loops = {h: b for h, b in v.loops.items()}
    fv = S.FnView(v.m, s.fn)
    counted = {h for h in loops if (counted_loop(v, h) or fv.trip(h) is not None) and not any(e.kind in WORK + ('step',) for b in loops[h] for e in s.evs.get(b, ()))}
    probs = {}
    def prob(rule, inst, e, txt): probs.setdefault((rule, inst), (e.where() if e is not None else '', txt))
    latest = {}
    seen = []
    def delta(q, e, st):
        B, L = st
        done, open_, fr = q
        if lazy:
            fr = fresh(fr, e)
            q = (done, open_, fr)
        if e.kind == 'step':
            c = asint(e.args[1])
            seen.append(e)
            if done: prob('R-stop', '%s: measurement' % n, e, 'a further measurement is made although the stopping test has succeeded')
            const = c is not None and lin_const(c) == 0
            if c is None: prob('R-limit', '%s: iteration number' % n, e, 'iteration number %s is not a counter' % S.show(e.args[1]))
            else:
                g = lin_add(c, lin_scale(maxit, scale), -1)
                if not const and not entails(L, g): prob('R-limit', '%s: iteration number' % n, e, 'iteration %s may exceed the maximum iteration count; known here: %s' % (S.show(e.args[1]), [S.show(x) + ' <= 0' for x in sorted(L, key=repr)][:24]))
                if not entails(L, lin_add(lin_add(GH, LIN(1)), c, -1)): prob('R-advance', '%s: iteration number' % n, e, 'iteration number %s need not be larger than the one reported before; known here: %s' % (S.show(e.args[1]), [S.show(x) + ' <= 0' for x in sorted(L, key=repr)][:24]))
            r = ('call', e.ins.res)
            asg = [(GH, c if c is not None else ('opaque', e.ins.res))]
            return [((1, frozenset(), fr), [r] if e.ins.res else [], asg + [(sv.conv, LIN(1))]), ((0, frozenset(), fr), [('not', r)] if e.ins.res else [], asg + [(sv.conv, LIN(0))])]
        if e.kind in WORK:
            if done: prob('R-stop', '%s: %s' % (n, e.kind), e, 'the %s is applied although the stopping test has succeeded' % ('preconditioner' if e.kind == 'papply' else 'operator'))
        if e.kind == 'cycle':
            i = ('ld', e.args[4], 'i32'); mm = ('ld', off['mmax'], 'i32')
            return [(q, [('icmp', 'sle', lin_add(i, mm, -1)), ('icmp', 'sge', LIN(0, [(i, 1)]))])]
        return [(q, [])]
    lazy = 'GMRes' in n
    X = ('p', 1)
    sites = {}
    def fresh(fr, e):
        dirty, rhs = fr
        def site(kind, bad, txt):
            sites.setdefault((kind, e.where()), None)
            if bad: sites[kind, e.where()] = txt
        if e.kind == 'papply': site('applied to', e.args[2] in rhs, 'the preconditioner is applied to the right-hand side itself instead of the residual')
        if e.kind in ('papply', 'opapply', 'step') or (e.kind == 'opasa' and e.args[2] != X):
            site(e.kind, dirty, 'reached with a residual that does not belong to the current solution')
        if e.kind == 'call':
            h = head(e.name)
            if h in VECMOD:
                t = e.args[0]
                copy = (h == 'vt::Vec::operator=' and 'Vec const&' in e.name) or h == 'vt::Vec::Vec'
                if t == X: dirty = True
                rhs2 = rhs - {t}
                if copy and len(e.args) > 1 and e.args[1] in rhs: rhs2 = rhs2 | {t}
                return (dirty, rhs2)
            return fr
        if e.kind == 'papply': return (dirty, rhs - {e.args[1]})
        if e.kind == 'opapply': return (dirty, rhs - {e.args[2]})
        if e.kind == 'opasa':
            if e.args[2] == X:
                ok = e.args[1] == ('f', -1.0) and e.args[3] in rhs
                site('residual', not ok, 'the residual is not computed from the right-hand side: %s does not hold it here' % S.show(e.args[3]))
                return (not ok, rhs - {e.args[3]})
            return (dirty, rhs - {e.args[3]})
        return fr
    cyc = {}
    def edgeq(q, a, b):
        done, open_, fr = q
        # leaving loops
        open_ = frozenset(h for h in open_ if b in loops[h])
        if b in loops and b not in counted:
            if a in loops[b]:
                if b in open_: cyc[b] = a
            open_ = open_ | {b}
        return (done, open_, fr)
    eng = engine(sv, s, delta, edgeq, extra=lambda t: t == GH, facts=[lin_add(GH, LIN(1)), lin_scale(lin_add(GH, LIN(1)), -1)])
    eng.run((0, frozenset(), (True, frozenset([('p', 2)]))))
    s.eng = eng
    if not seen: prob('R-limit', '%s: iteration number' % n, None, 'no iteration is ever reported')
    def ob(rule, inst, w=''):
        p = probs.get((rule, inst)); ctx.ob(rule, inst, p is None, p[0] if p else w, p[1] if p else '')
    ob('R-limit', '%s: iteration number' % n, seen[0].where() if seen else '')
    ob('R-advance', '%s: iteration number' % n)
    ob('R-stop', '%s: measurement' % n)
    for k in sorted({e.kind for e in allev(s) if e.kind in WORK}): ob('R-stop', '%s: %s' % (n, k))
    for (k, w), txt in sorted(sites.items()):
        ctx.ob('R-fresh', '%s: %s at %s' % (n, k, ordinal(sites, k, w)), txt is None, w, txt or '')
    unc = [h for h in loops if h not in counted and h in eng.inn]
    work = False
    for h in unc:
        w = v.m.where(v.fn.blocks[h].instrs[-1])
        ctx.ob('R-progress', '%s: loop %d' % (n, sorted(unc, key=lambda b: v.fn.order.index(b)).index(h) + 1), h not in cyc, w, 'a pass through this loop reports no iteration, so nothing bounds the number of passes')
    if not any(e.kind in WORK for h in loops for b in loops[h] for e in s.evs.get(b, ())):
        raise Broken('%s: no loop applying the operator or preconditioner' % n)

def ordinal(sites, k, w):
    return '#%d' % (sorted(x[1] for x in sites if x[0] == k).index(w) + 1)

def helpers(ctx, sv):
    mmax = ('ld', sv.off['mmax'], 'i32')
    cyc = orth = 0
    for f in sv.m.functions.values():
        h = head(f.dem or '')
        if not f.blocks or not h.startswith('Dune::'): continue
        if h.endswith('FCGSolver::cycle'):
            cyc += 1
            v = IvView(sv.m, f); evs = events(v, sv.probes)
            cell = ('p', 4)
            final = []
            class V2(IvView): cells = (('p', 4),)
            v = V2(sv.m, f); evs = events(v, sv.probes)
            i = ('ld', cell, 'i32')
            bad = []
            def delta(q, e, st):
                if e.kind == 'ret':
                    if not (entails(st[1], lin_add(i, mmax, -1)) and entails(st[1], LIN(0, [(i, -1)]))): bad.append(e)
                return None
            eng = Engine(v, evs, delta, normal_only=True, init_facts=[LIN(0, [(mmax, -1)])])
            eng.relevant = lambda t: True
            eng.run(0)
            ctx.ob('R-helper', h.split('::', 1)[1], not bad, bad[0].where() if bad else sv.m.where(next(f.instrs())), 'the direction index may leave [0,mmax] after the cycle')
        elif h.endswith('FCGSolver::orthogonalizations'):
            orth += 1
            v = EvView(sv.m, f); evs = events(v, sv.probes)
            w = [e for L in evs.values() for e in L if e.kind == 'store' and root(e.args[0]) == ('p', 1)]
            ctx.ob('R-helper', h.split('::', 1)[1], not w, w[0].where() if w else sv.m.where(next(f.instrs())), 'the direction index is modified')
    if cyc < 2 or orth < 2: raise Broken('helpers of the FCG solvers not found')

VECMOD = ('vt::Vec::operator=', 'vt::Vec::operator+=', 'vt::Vec::operator-=', 'vt::Vec::operator*=', 'vt::Vec::operator/=', 'vt::Vec::axpy', 'vt::Vec::Vec')
