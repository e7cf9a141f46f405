"""S04: consistency of solution and defect updates, by path-sensitive dataflow over image facts (q = A p) and unmatched corrections."""
from solver import Solvers, SView, engine, step_split, cycle_conds, parallel, allev
from events import head
from absint import root, entails
from summary import LIN, lin_of, lin_add, lin_scale, lin_const, is_lin, walk
from harness import Broken
import summary as S

RECUR = ('LoopSolver', 'GradientSolver', 'CGSolver', 'BiCGSTABSolver', 'GeneralizedPCGSolver', 'RestartedFCGSolver')
X = ('p', 1); B = ('p', 2)
MOD = {'vt::Vec::operator=': 'set', 'vt::Vec::operator+=': 'add', 'vt::Vec::operator-=': 'sub', 'vt::Vec::operator*=': 'scale', 'vt::Vec::operator/=': 'scale', 'vt::Vec::axpy': 'axpy', 'vt::Vec::Vec': 'new'}

def run(ctx):
    ctx.rule('R-start', 'the defect is initialised once as right-hand side minus operator times initial solution, before it is used')
    ctx.rule('R-match', 'every multiple of a direction added to the solution is matched by the same multiple of its operator image subtracted from the defect before the defect is used, measured or the iteration is left')
    ctx.rule('R-image', 'every vector subtracted from the defect is the operator image, computed in this pass, of a direction that has not changed since')
    ctx.rule('R-only', 'solution and defect change in no other way')
    ctx.rule('R-pairs', 'a direction is made conjugate to an earlier one with the scalar product and normalisation of that same direction')
    ctx.assumptions.append('linear operator: opapply(p,q) sets q = A p, applyscaleadd(a,v,b) adds a A v to b; restarted GMRes and MINRES update no defect by recurrence (their residuals are covered by S03 and S02)')
    ctx.prefetch('s04_fcg.cc')
    sv = Solvers(ctx, SView)
    parallel(ctx, [s for s in sv.list if s.name in RECUR], lambda s: solver(ctx, sv, s))
    helpers(ctx)
    for r, k in (('R-start', 6), ('R-match', 12), ('R-image', 5), ('R-only', 12), ('R-pairs', 5)): ctx.need(r, k)

def coef(x):
    """(sign, body) of a coefficient; signs are pulled out of products and conditionals"""
    if isinstance(x, tuple) and x:
        if x[0] == 'f': return (-1, ('f', -x[1])) if x[1] < 0 else (1, ('f', abs(x[1])))
        if x[0] == 'fneg': s, b = coef(x[1]); return (-s, b)
        if x[0] == 'fprod':
            sg = -1 if x[1] < 0 else 1; fs = []
            for y in x[2]:
                s, b = coef(y); sg *= s; fs.append(b)
            if abs(x[1]) == 1.0 and len(fs) == 1: return (sg, fs[0])
            return (sg, ('fprod', abs(x[1]), tuple(sorted(fs, key=repr))))
        if x[0] == 'fdiv':
            s, a = coef(x[1]); t, b = coef(x[2]); return (s*t, ('fdiv', a, b))
        if x[0] == 'ite':
            s, a = coef(x[2]); t, b = coef(x[3])
            if a == ('f', 0.0): s = t
            if b == ('f', 0.0): t = s
            if s == t: return (s, ('ite', x[1], a, b))
            return (1, ('ite', x[1], x[2], x[3]))
        if x[0] == 'fsum':
            ps = sorted(((coef(y)) for y in x[1]), key=lambda p: repr(p[1]))
            sg = ps[0][0]
            return (sg, ('fsum', tuple((s*sg, b) for s, b in ps)))
    return (1, x)

def solver(ctx, sv, s):
    v = s.v; n = s.name
    probs = {}; seen = {}
    def prob(rule, inst, e, txt): probs.setdefault((rule, inst), (e.where(), txt))
    def mark(rule, inst, e): seen.setdefault((rule, inst), e.where())
    evs = list(allev(s))
    normed = [e.args[1] for e in evs if e.kind == 'norm']
    D = max(set(normed), key=lambda t: (normed.count(t), t == B)) if normed else B
    num = {}
    def name(e, what):
        k = num.setdefault(what, []); 
        if id(e.ins) not in k: k.append(id(e.ins))
        return '%s #%d' % (what, k.index(id(e.ins)) + 1)
    def eq(L, a, b):
        if a == b: return True
        if root(a) != root(b): return False
        d = lin_add(lin_of(a), lin_of(b), -1)
        return not (d[2] == ()) and entails(L, d) and entails(L, lin_scale(d, -1))
    def may(L, a, b):
        if a == b: return True
        ra, rb = root(a), root(b)
        if ra != rb:
            # local objects and the arguments are distinct; elements reached through different containers are distinct
            return False
        d = lin_add(lin_of(a), lin_of(b), -1)
        if d[2] == (): return d[1] == 0
        return not (entails(L, lin_add(d, LIN(1))) or entails(L, lin_add(LIN(1), d, -1)))
    def write(st, q, t, e):
        """vector t changes"""
        L = st[1]
        ph, bal, img = q
        for k, p, c in bal:
            if may(L, p, t): prob('R-match', 'corrections', e, 'a direction changes after it was added to the %s and before the %s has been updated' % (('solution', 'defect') if k == 'x' else ('defect', 'solution')))
        bal = frozenset(z for z in bal if not may(L, z[1], t))
        img = frozenset((a, b) for a, b in img if not may(L, a, t) and not may(L, b, t))
        return (ph, bal, img)
    def contribute(st, q, side, p, cf):
        ph, bal, img = q; L = st[1]
        other = 'b' if side == 'x' else 'x'
        for z in bal:
            if z[0] == other and z[2] == cf and eq(L, z[1], p): return (ph, bal - {z}, img)
        return (ph, bal | {(side, p, cf)}, img)
    def settled(q, e, what):
        mark('R-match', what, e)
        for k, p, c in q[1]:
            prob('R-match', what, e, 'reached although %s times the direction was %s' % (('-' if c[0] < 0 else '') + S.show(c[1])[:120], 'added to the solution and the defect has not been updated' if k == 'x' else 'removed from the defect and the solution has not been updated'))
    def measured(q, e, what):
        if q[0] != 'def': prob('R-start', 'defect', e, 'the defect is used before it has been computed')
        settled(q, e, what)
    def delta(q, e, st):
        L = st[1]
        if e.kind == 'step': settled(q, e, 'measurement'); return step_split(sv, e, q, q)
        if e.kind == 'cycle':
            img = frozenset((a, b) for a, b in q[2] if root(a) not in (root(e.args[1]), root(e.args[2])) and not any(t in (e.args[1], e.args[2]) for t in walk(a)) and not any(t in (e.args[1], e.args[2]) for t in walk(b)))
            return [((q[0], q[1], img), cycle_conds(sv, e))]
        if e.kind == 'orth':
            return [((q[0], q[1], frozenset((a, b) for a, b in q[2] if not any(t == e.args[5] for t in walk(b)))), [])]
        if e.kind == 'norm':
            if e.args[1] == D: measured(q, e, 'measurement')
            return [(q, [])]
        if e.kind == 'dot':
            if D in e.args[1:3]: measured(q, e, 'use of the defect')
            return [(q, [])]
        if e.kind == 'papply':
            if e.args[2] == D: measured(q, e, 'use of the defect')
            mark('R-only', 'preconditioner output', e)
            if e.args[1] in (X, D): prob('R-only', 'preconditioner output', e, 'the preconditioner overwrites the %s' % ('solution' if e.args[1] == X else 'defect'))
            return [(write(st, q, e.args[1], e), [])]
        if e.kind == 'opapply':
            p, t = e.args[1], e.args[2]
            if t in (X, D): prob('R-only', 'operator output', e, 'the operator overwrites the %s' % ('solution' if t == X else 'defect'))
            mark('R-only', 'operator output', e)
            q = write(st, q, t, e)
            return [((q[0], q[1], q[2] | {(t, p)}), [])]
        if e.kind == 'opasa':
            a, p, t = e.args[1:4]
            if p == X:
                mark('R-start', 'defect', e)
                if t not in (D, B) or a != ('f', -1.0): prob('R-start', 'defect', e, 'the initial defect is not computed as right-hand side minus operator times solution')
                elif q[0] != 'rhs': prob('R-start', 'defect', e, 'the image of the solution is subtracted from a vector that no longer holds the right-hand side')
                return [(('def', q[1], q[2]), [])]
            if t == D:
                if q[0] != 'def': prob('R-start', 'defect', e, 'the defect is updated before it has been computed')
                mark('R-image', name(e, 'defect update'), e)
                sg, b = coef(a)
                return [(contribute(st, q, 'b', p, (-sg, b)), [])]
            return [(write(st, q, t, e), [])]
        if e.kind in ('post', 'ret'):
            settled(q, e, 'return'); return [(q, [])]
        if e.kind == 'call':
            h = head(e.name); k = MOD.get(h)
            if k is None: return [(q, [])]
            t = e.args[0]
            if k == 'new': return [(write(st, q, t, e), [])]
            if t in (X, D):
                who = 'solution' if t == X else 'defect'
                mark('R-only', who, e)
                if k == 'set' and t == D and D != B and e.args[1] == B: return [(q, [])]
                if k in ('set', 'scale'):
                    prob('R-only', who, e, 'the %s is changed by %s' % (who, h.split('::')[-1])); return [(q, [])]
                if k == 'axpy': (sg, cb), p = coef(e.args[1]), e.args[2]
                else: (sg, cb), p = (1 if k == 'add' else -1, ('f', 1.0)), e.args[1]
                if t == X: return [(contribute(st, q, 'x', p, (sg, cb)), [])]
                inst = name(e, 'defect update')
                mark('R-image', inst, e)
                if q[0] != 'def': prob('R-start', 'defect', e, 'the defect is updated before it has been computed')
                src = [b for a, b in q[2] if eq(L, a, p)]
                if not src:
                    prob('R-image', inst, e, 'the vector subtracted from the defect is not the image of a direction that is still unchanged'); return [(q, [])]
                best = [b for b in src if any(z[0] == 'x' and eq(L, z[1], b) for z in q[1])] or src
                return [(contribute(st, q, 'b', best[0], (-sg, cb)), [])]
            if k == 'axpy': pairs(st, q, e)
            return [(write(st, q, t, e), [])]
        return [(q, [])]
    dots = {e.res: e for e in evs if e.kind == 'dot'}
    def pairs(st, q, e):
        """direction T -= <Ap,w>/<p,Ap> p"""
        sg, c = coef(e.args[1])
        if not (isinstance(c, tuple) and c[0] == 'fdiv'): return
        ds = [dots[t] for t in walk(c[1]) if t in dots]
        if not ds or n == 'BiCGSTABSolver': return
        inst = 'conjugation #%d' % ([x for x in evs if x.kind == 'call'].index(e) + 1)
        mark('R-pairs', inst, e)
        P = e.args[2]; L = st[1]
        if not any(eq(L, P, a) for d in ds for a in d.args[1:3]):
            prob('R-pairs', inst, e, 'the coefficient was computed with another direction than the one subtracted')
        its = lambda x: {t for t in walk(x) if isinstance(t, tuple) and len(t) == 2 and t[0] in ('it',)}
        if its(P) != its(c[2]): prob('R-pairs', inst, e, 'the coefficient is normalised with the energy of another direction')
        if sg > 0: prob('R-pairs', inst, e, 'the component along the earlier direction is added, not subtracted')
    def edgeq(q, a, b):
        if b in v.loops and a in v.loops[b]:
            body = v.loops[b]
            for k, p, c in q[1]:
                i = v.fn.blocks[a].instrs[-1]
                probs.setdefault(('R-match', 'next iteration'), (v.m.where(i), 'the next pass starts although the %s has not been updated with a correction of this one' % ('defect' if k == 'x' else 'solution')))
            def inv(x):
                for t in walk(x):
                    if isinstance(t, tuple) and len(t) == 2:
                        if t[0] == 'it' and t[1] in body: return False
                        if t[0] in ('phi', 'lv', 'flv', 'call') and t[1] in v.fn.defs and v.fn.defs[t[1]].block.name in body: return False
                return True
            return (q[0], frozenset(), frozenset(z for z in q[2] if inv(z[0]) and inv(z[1])))
        return q
    eng = engine(sv, s, delta, edgeq, extra=lambda t: isinstance(t, tuple) and t[:1] in (('lv',), ('ld',)) and True)
    eng.run(('rhs', frozenset(), frozenset()))
    if not any(k[0] == 'R-image' for k in seen): ctx.ob('R-image', '%s: defect update' % n, False, v.m.where(next(s.fn.instrs())), 'the defect is never updated'); return
    for k in sorted(set(seen) | set(probs)):
        p = probs.get(k)
        ctx.ob(k[0], '%s: %s' % (n, k[1]), p is None, p[0] if p else seen.get(k, ''), p[1] if p else '')

def helpers(ctx):
    from pairs import run_pairs
    run_pairs(ctx, 's04_fcg.cc', 'R-pairs', 'FCG', min=4)
