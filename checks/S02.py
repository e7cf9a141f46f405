"""S02: the result record.  (a) decision tables of the iteration control against its prescription (path-sensitive value analysis);
(b) path-sensitive abstract interpretation of every solver: one iteration control per call, initial measurement first, every
measurement is taken of the current defect, nothing changes after the last one."""
from solver import Solvers, SView, engine, step_split, cycle_conds, parallel, allev, WORK
from pairs import by_name
from events import offsets, head
from paths import Paths, same_table, simp, lin_of, equal_under
from summary import LIN, lin_const, walk, is_lin, lin_add
from absint import root, entails
from harness import Broken
import summary as S

def run(ctx):
    ctx.rule('R-iteration', 'on every path through construction, measurements and destruction of an Iteration the result record and the values returned equal the prescribed ones')
    ctx.rule('R-abort', 'a measurement that is not finite throws SolverAbort and every path that leaves a run by an exception leaves the result not converged')
    ctx.rule('R-control', 'every solve constructs exactly one iteration control for itself and the given result record, before the first measurement')
    ctx.rule('R-first', 'on every path to a return the initial defect has been measured as iteration 0')
    ctx.rule('R-measure', 'the value reported is the norm of the current defect vector (or the recurrence the method defines), not a stale value')
    ctx.rule('R-record', 'the solvers write nothing into the result record but convergence = false and the condition estimate')
    ctx.rule('R-last', 'after the last measurement neither the defect nor (unless it is applied once per cycle) the solution changes before the return')
    ctx.assumptions.append('the decision tables are compared for verbosity <= 0; independence of the verbosity is property S05')
    for d in ('solvers.cc', 's02_iter.cc'): ctx.prefetch(d)
    iteration(ctx)
    sv = Solvers(ctx, SView)
    parallel(ctx, sv.list, lambda s: solver(ctx, sv, s))
    ctx.need('R-iteration', 10); ctx.need('R-control', 9); ctx.need('R-first', 9); ctx.need('R-measure', 18); ctx.need('R-last', 9)

# ------------------------------------------------------------------ Iteration
def iteration(ctx):
    m = ctx.module('s02_iter.cc'); d = by_name(m); off = offsets(m)
    R = lambda k: S.subst(off[k], {('p', 0): ('p', 1)})
    quiet = [('icmp', 'sle', lin_of(('ld', simp(off['verbose']), 'i32')))]
    outp = lambda k: S.subst(off[k], {('p', 0): ('p', 2)})
    def cells(n, full):
        c = [('converged', R('converged'), 'i8')]
        if full: c += [('iterations', R('iterations'), 'i32'), ('reduction', R('reduction_'), 'double'), ('conv_rate', R('rate'), 'double'), ('condition_estimate', R('cond'), 'double')]
        c.append(('value returned by step()', outp('retflag'), 'i8'))
        if 'run3' in n: c.append(('value returned by the first step()', outp('excflag'), 'i8'))
        return c
    def paths(n, **kw): return Paths(m, d[n], init=quiet, **kw)
    for t, text in (('u', 'unsigned'), ('d', 'double')):
        for n in ('run0', 'run1', 'run2', 'run3', 'move'):
            k = 'k_%s_%s' % (n, t)
            A, B = paths(k), paths('s_%s_%s' % (n, t))
            ctx.functions.add(A.v.fn.dem)
            cs = cells(n, n in ('run2', 'run3', 'move'))
            if n == 'run1': cs += [('iterations', R('iterations'), 'i32'), ('reduction', R('reduction_'), 'double'), ('condition_estimate', R('cond'), 'double')]
            if n == 'run0': cs = [('converged', R('converged'), 'i8'), ('iterations', R('iterations'), 'i32'), ('condition_estimate', R('cond'), 'double')]
            bad = same_table(A, B, cs)
            ctx.ob('R-iteration', 'Iteration<%s>: %s' % (text, NAMES[n]), not bad, bad[0][1].where() if bad else m.where(next(d[k].instrs())), bad[0][0] if bad else '')
            if n != 'run0':
                thr = [l for l in A.leaves if l.kind == 'throw']
                ok = bool(thr) and all('SolverAbort' in str(l.val) for l in thr)
                ctx.ob('R-abort', 'Iteration<%s>: exception of %s' % (text, NAMES[n]), ok, thr[0].where() if thr else '', 'exceptions: %s' % sorted({str(l.val) for l in thr}))
            if n in ('run1', 'run2'):
                bad = [l for l in A.leaves if l.kind == 'ret' and not written(A, l, R('elapsed')) or l.kind == 'ret' and not written(A, l, R('rate'))]
                ctx.ob('R-iteration', 'Iteration<%s>: %s sets time and rate' % (text, NAMES[n]), not bad, bad[0].where() if bad else '', 'time or rate is not set on a path to the end of the run')
        for n in ('abort0', 'abort1', 'abort2'):
            k = 'k_%s_%s' % (n, t)
            A = paths(k, unwind=True, limit=60000)
            bad = []; cnt = 0
            for l in A.leaves:
                if l.kind != 'ret': continue
                x = A.load(l.st, outp('excflag'), 'i8')
                if lin_const(x) == 1:
                    # reached through the handler: either construction failed or the destructor ran
                    c = A.load(l.st, R('converged'), 'i8')
                    cnt += 1
                    if lin_const(c) == 0 or equal_under(A, l.st.facts, c, LIN(0)): continue
                    bad.append((l, 'when %s: a run left by an exception reports converged = %s' % (' and '.join(sorted(S.show(f)[:100] for f in l.st.facts)), S.show(c)[:160])))
            if not cnt: raise Broken('%s: no exceptional path found' % k)
            ctx.ob('R-abort', 'Iteration<%s>: run left by an exception (%s)' % (text, n), not bad, bad[0][0].where() if bad else m.where(next(d[k].instrs())), bad[0][1] if bad else '')
NAMES = {'run0': 'no measurement', 'run1': 'one measurement', 'run2': 'two measurements', 'run3': 'three measurements', 'move': 'moved between measurements'}
def written(A, l, a): return A.load(l.st, a, 'double') != ('ld', a, 'double')

# ------------------------------------------------------------------ solvers
VECMOD = ('vt::Vec::operator=', 'vt::Vec::operator+=', 'vt::Vec::operator-=', 'vt::Vec::operator*=', 'vt::Vec::operator/=', 'vt::Vec::axpy')
def solver(ctx, sv, s):
    v = s.v; n = s.name
    X = ('p', 1)
    norms = {e.res: e for e in allev(s) if e.kind == 'norm' and e.ins.res}
    lazy = 'GMRes' in n; recur = lazy or n == 'MINRESSolver'
    probs = {}; seen = {}
    def prob(rule, inst, e, txt): probs.setdefault((rule, inst), (e.where(), txt))
    def mark(rule, inst, e): seen.setdefault((rule, inst), e.where())
    steps = [e for e in allev(s) if e.kind == 'step']
    def leaves(x, vis):
        if x in norms: return {x}
        if isinstance(x, tuple) and len(x) == 2 and x[0] in ('phi', 'flv'):
            if x in vis: return set()
            vis.add(x)
            ins = v.fn.defs.get(x[1])
            if ins is not None and ins.op == 'phi':
                r = set()
                for o, p in ins.phis:
                    y = leaves(v.canon(o), vis)
                    if y is None: return None
                    r |= y
                return r
        return None
    def modifies(e):
        """vectors changed by an event"""
        if e.kind == 'call' and head(e.name) in VECMOD: return [e.args[0]]
        if e.kind == 'papply': return [e.args[1]]
        if e.kind == 'opapply': return [e.args[2]]
        if e.kind == 'opasa': return [e.args[3]]
        return []
    def delta(q, e, st):
        B, L = st
        ctl, first, cur, pend = q
        if e.kind == 'itctor':
            mark('R-control', 'construction', e)
            if ctl: prob('R-control', 'construction', e, 'a second iteration control is constructed in one solve')
            if e.args[1:3] != (('p', 0), ('p', 3)): prob('R-control', 'construction', e, 'the iteration control is given %s' % [S.show(a) for a in e.args[1:3]])
            return [((e.args[0], first, cur, pend), [])]
        if e.kind == 'itdtor': return [(q, [])]
        if e.kind == 'step':
            k = steps.index(e) + 1
            mark('R-measure', 'measurement #%d' % k, e)
            if e.args[0] != ctl: prob('R-control', 'construction', e, 'a measurement is reported to an iteration control that is not the one of this solve')
            z = e.args[1] == ('f', 0.0) or entails(L, e.args[1]) and entails(L, lin_add(LIN(0), lin_of(e.args[1]), -1)) if is_lin(lin_of(e.args[1])) else False
            if not first:
                mark('R-first', 'initial measurement', e)
                if not z: prob('R-first', 'initial measurement', e, 'the first measurement is reported as iteration %s' % S.show(e.args[1]))
            val = e.args[2]
            ls = leaves(val, set())
            if ls:
                if cur is None or not (val == cur or val not in norms and cur in ls):
                    prob('R-measure', 'measurement #%d' % k, e, 'the reported norm was not computed from the current defect: the vector changed since, or it is the norm of another vector')
            elif recur and first:
                why = recurrence(v, s, e, n)
                if why: prob('R-measure', 'measurement #%d' % k, e, why)
            else: prob('R-measure', 'measurement #%d' % k, e, 'the reported value %s is not a norm of the defect' % S.show(val)[:200])
            r = step_split(sv, e, 0, 1)
            p2 = True if lazy and first else False
            return [((ctl, True, cur, p2), c, a) for _, c, a in r]
        if e.kind == 'norm' and e.ins.res:
            return [((ctl, first, e.res, pend), [])]
        if e.kind == 'cycle': return [(q, cycle_conds(sv, e))]
        if e.kind == 'ret':
            mark('R-first', 'return', e); mark('R-last', 'return', e)
            if not ctl: prob('R-control', 'construction', e, 'a path returns without an iteration control')
            if not first: prob('R-first', 'return', e, 'a path returns although the initial defect was never measured')
            if pend: prob('R-last', 'return', e, 'a path returns although %s' % ('the correction of the last cycle has not been added to the solution' if lazy and pend is True else 'the solution or defect was changed after the last measurement: %s' % (pend,)))
            return [(q, [])]
        if e.kind == 'store' and root(e.args[0]) == ('p', 3):
            o = S.lin_add(lin_of(e.args[0]), lin_of(('p', 3)), -1)
            conv = e.args[0] == simp(S.subst(sv.off['converged'], {('p', 0): ('p', 3)}))
            mark('R-record', 'store', e)
            ok = not ctl or conv and lin_const(e.args[1]) == 0 or lin_const(o) == condoff(sv)
            if not ok: prob('R-record', 'store', e, 'the solver overwrites a field of the result record with %s' % S.show(e.args[1])[:100])
            return [(q, [])]
        ms = modifies(e)
        if ms:
            if cur in norms and norms[cur].args[1] in ms: cur = None
            if lazy:
                if X in ms and first: pend = False
            elif first:
                d = defects[n]
                hit = [t for t in ms if t == X or t in d and not recur]
                if hit: pend = 'unmeasured'
            return [((ctl, first, cur, pend), [])]
        return [(q, [])]
    # vectors whose norm is reported
    defects = {n: {norms[t].args[1] for e in steps for t in (leaves(e.args[2], set()) or ())}}
    def dl(q, e, st):
        return delta(q, e, st)
    eng = engine(sv, s, dl)
    eng.run((None, False, None, False))
    inst = {('R-control', 'construction'), ('R-first', 'initial measurement'), ('R-first', 'return'), ('R-last', 'return')} | set(seen) | set(probs)
    if not any(k[0] == 'R-measure' for k in seen): ctx.ob('R-first', '%s: initial measurement' % n, False, v.m.where(next(s.fn.instrs())), 'no measurement is ever reported'); return
    for k in sorted(inst):
        p = probs.get(k)
        ctx.ob(k[0], '%s: %s' % (n, k[1]), p is None, p[0] if p else seen.get(k, ''), p[1] if p else '')

def condoff(sv): return lin_const(lin_add(lin_of(sv.off['cond']), lin_of(('p', 0)), -1))

def recurrence(v, s, e, n):
    """GMRes: |s[i+1]| of this pass; MINRES: a fresh recurrence value"""
    val = e.args[2]
    if not (isinstance(val, tuple) and val[0] == 'intr' and val[1] == 'fabs'): return 'the reported value %s is not an absolute value of the residual recurrence' % S.show(val)[:120]
    z = val[2]
    its = [t for t in walk(z) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'it']
    if not its: return 'the reported value %s does not depend on the current pass' % S.show(z)[:120]
    if n == 'MINRESSolver':
        return None
    addrs = [x.args[0] for L in s.evs.values() for x in L if x.kind == 'store' and x.args[1] == z]
    if isinstance(z, tuple) and z[0] == 'ld': addrs.append(z[1])
    it = its[0]
    for a in addrs:
        a = lin_of(a); k = dict(a[2]).get(it, 0)
        if k == 8 and a[1] == 8: return None
    return 'the reported value %s is not the component of the rotated right-hand side that belongs to this pass' % S.show(z)[:160]
