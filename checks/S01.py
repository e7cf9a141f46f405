"""S01: typestate of the preconditioner protocol (pre -> apply* -> post), path-sensitive abstract interpretation."""
from solver import Solvers, SView, engine, step_split, cycle_conds, parallel, allev
from events import typestate, EvView, events
from harness import Broken
from calls import table, CallPaths
from pairs import by_name
from events import offsets
from paths import simp, lin_of, lin_add, lin_scale, equal_under, consistent
from M03 import Ranged, at
from summary import LIN, FnView, show
import harness as H, re
import summary as S

def run(ctx):
    ctx.rule('R-pre-once', 'on every path pre() is called exactly once, on the solution and right-hand side arguments, before the first preconditioner application')
    ctx.rule('R-post-once', 'every path to a normal return calls post() on the solution argument exactly once after the last application')
    ctx.rule('R-no-use-after-post', 'no path applies the preconditioner, or prepares it again, after post()')
    ctx.rule('R-forward', 'a preconditioner wrapping others forwards preparation, application and clean-up to each of them exactly once per call')
    ctx.prefetch('s01_wrap.cc', H.MPI)
    sv = Solvers(ctx, SView)
    parallel(ctx, sv.list, lambda s: protocol(ctx, sv, s))
    ctx.need('R-pre-once', 9); ctx.need('R-post-once', 9)
    wrappers(ctx)

def protocol(ctx, sv, s, kinds=('pre','papply','post')):
    PRE, APP, POST = kinds
    n = s.name
    seen = {}
    def note(e, q): seen.setdefault(id(e.ins), (e, set()))[1].add(q)
    def delta(q, e, st):
        if e.kind in (PRE, POST, APP, 'ret'): note(e, q)
        if e.kind == PRE: return [('prepared' if q == 'idle' else 'err', [])]
        if e.kind == POST: return [('cleaned' if q == 'prepared' else 'err', [])]
        if e.kind == 'step': return step_split(sv, e, q, q)
        if e.kind == 'cycle': return [(q, cycle_conds(sv, e))]
        return [(q, [])]
    engine(sv, s, delta).run('idle')
    by = lambda k: [seen[id(e.ins)] for e in allev(s) if e.kind == k and id(e.ins) in seen]
    for e, st in by(PRE):
        ctx.ob('R-pre-once', '%s: pre()' % n, st <= {'idle'}, e.where(), 'preconditioner state on entry of pre(): %s' % sorted(st))
        ctx.ob('R-pre-once', '%s: pre() arguments' % n, e.args[1:3] == (('p', 1), ('p', 2)), e.where(),
               'pre() is given %s, expected the solution and right-hand side arguments' % [S.show(a) for a in e.args[1:3]])
    for e, st in by(APP):
        ctx.ob('R-no-use-after-post', '%s: application' % n, st <= {'prepared'}, e.where(), 'preconditioner may be %s when applied' % sorted(st - {'prepared'}))
    for e, st in by(POST):
        ctx.ob('R-post-once', '%s: post()' % n, st <= {'prepared'}, e.where(), 'preconditioner may be %s when post() is called' % sorted(st - {'prepared'}))
        ctx.ob('R-post-once', '%s: post() argument' % n, e.args[1] == ('p', 1), e.where(), 'post() is given %s' % S.show(e.args[1]))
    for e, st in by('ret'):
        ctx.ob('R-post-once', '%s: return' % n, st <= {'cleaned'}, e.where(), 'a path returns with the preconditioner %s' % sorted(st - {'cleaned'}))
    if not by(PRE): ctx.ob('R-pre-once', '%s: pre()' % n, False, s.v.m.where(next(s.fn.instrs())), 'pre() is never called')
    if not by('ret'): raise Broken('%s: no return is reached' % n)

# ------------------------------------------------------------------ preconditioners made of others
VT = lambda nm: 'vt::' in nm and not nm.startswith('std::')
LEVELS = r'vt::Sm::(pre|post)\('
class Levels(Ranged, CallPaths):
    """calls on the smoothers of the levels, in counted loops as ranges"""
    def __init__(self, *a, **kw): self.handled = set(); self.lost = []; super().__init__(*a, **kw)
    def counted(self, nm): return bool(re.search(LEVELS, nm))
    def operands(self, nm): return [0, 1, 2] if '::pre(' in nm else [0, 1]
    def record(self, st, nm, lo, T, i): st.trace = st.trace + ((re.search(LEVELS, nm).group(1), nm, T, tuple(lo[k] for k in sorted(lo))),)
    def uncounted(self, st, i): self.lost.append(i)
    def observe(self, P, st, i, nm, args, callee=None):
        if nm == 'store' or not VT(nm): return None
        if self.counted(nm):
            if not st.loops: st.trace = st.trace + ((re.search(LEVELS, nm).group(1), nm, LIN(1), tuple((lin_of(a), None) for a in args[:len(self.operands(nm))])),)
            elif i in self.lost: st.trace = st.trace + (('lost', nm),)
            return [st]
        n = len(st.trace); r = super().observe(P, st, i, nm, args, callee)
        st.trace = st.trace[:n]
        return r

def wrappers(ctx):
    m = ctx.module('s01_wrap.cc', H.MPI); d = by_name(m); off = offsets(m)
    for k in sorted(d):
        if k.startswith('k_'): table(ctx, m, d[k], d['s_' + k[2:]], 'R-forward', k[2:], calls=VT)
    fn = lambda n: next(f for f in m.functions.values() if f.blocks and (f.dem or '').startswith(n + '('))
    # Krylov cycle: preparation of the underlying multigrid on every path
    f = fn('c_kamg_pre'); fwd = lambda nm: bool(re.search(r'::AMG<.*>::(pre|post)\(', nm))
    ctx.functions.add(f.dem); want = (simp(off['amg']), ('p', 1), ('p', 2)); rets = set()
    v = EvView(m, f); evs = events(v, {}); wrong = []
    def delta(q, e):
        if e.kind == 'ret': rets.add(q)
        if e.kind != 'call' or not fwd(e.name): return None
        if '::pre(' not in e.name or tuple(e.args[:3]) != want: wrong.append((e.where(), '%s(%s)' % (e.name.split('(')[0], [show(x) for x in e.args])))
        return min(q + 1, 2)
    typestate(v, evs, 0, delta)
    if not rets: raise Broken('kamg_pre: no return')
    ctx.ob('R-forward', 'kamg_pre', rets == {1} and not wrong, wrong[0][0] if wrong else m.where(next(f.instrs())), wrong[0][1] if wrong else 'the multigrid is prepared %s times' % sorted(rets))
    val = {}
    for n in ('levels', 'lhs', 'rhs'): val[n] = [e.args[0] for e in FnView(m, fn('val_' + n)).effects() if e.kind == 'ret'][0]
    sizes = {'smoother': 40, 'vector': 32}
    for op in ('pre', 'post'):
        f = fn('c_amg_' + op); ctx.functions.add(f.dem)
        L = lin_of(val['levels']); el = lin_of(simp(off['smoothers']))
        A = Levels(m, f, calls=VT, init=[('icmp', 'sge', L)], limit=20000); bad = []; n = 0
        for l in A.leaves:
            if l.kind != 'ret' or consistent(A, l.st.facts, ()) is None: continue
            n += 1; bad += [(t, l) for t in levels(A, l, op, el, L, val)]
        if not n: raise Broken('AMG::%s: no path' % op)
        ctx.ob('R-forward', 'AMG::%s' % op, not bad, bad[0][1].where() if bad else m.where(next(f.instrs())), bad[0][0] if bad else '%d paths' % n)
    ctx.need('R-forward', 17)

def levels(A, l, op, el, L, val):
    """every level's smoother once, with the vectors of that level"""
    F = l.st.facts; tr = list(l.st.trace); out = []
    eq = lambda x, y: equal_under(A, F, simp(x), simp(y))
    if any(e[0] == 'lost' for e in tr): raise Broken('AMG::%s: loop over the levels not recognised' % op)
    for e in tr:
        if e[0] != op: out.append('calls %s of a smoother' % e[0])
    ps = [e for e in tr if not eq(e[2], LIN(0))]; used = set()
    base = {'lhs': lin_of(at(A, l, val['lhs'])), 'rhs': lin_of(at(A, l, val['rhs']))}
    if op == 'post': base = {'lhs': lin_of(val['lhs']), 'rhs': lin_of(val['rhs'])}
    cur = LIN(0)
    while True:
        nx = [j for j, e in enumerate(ps) if j not in used and eq(e[3][0][0], lin_add(el, lin_scale(cur, 40)))]
        if not nx: break
        e = ps[nx[0]]; used.add(nx[0])
        if e[3][0][1] is not None and abs(e[3][0][1]) != 40: out.append('visits the smoothers in steps of %s bytes' % e[3][0][1])
        for k, b in ((1, 'lhs'), (2, 'rhs')):
            if k >= len(e[3]): continue
            lo, st = e[3][k]
            fine = eq(cur, LIN(0)) and e[3][0][1] is None and op == 'pre' and lo == lin_of(('p', k))
            if not fine and (not eq(lo, lin_add(base[b], lin_scale(cur, 32))) or st is not None and (st > 0) != (e[3][0][1] > 0) or st is not None and abs(st) != 32):
                out.append('the smoother of level %s is given %s as %s vector' % (show(simp(cur)), show(simp(lo)), {'lhs': 'left', 'rhs': 'right'}[b]))
        cur = lin_add(cur, lin_of(e[2]))
    if not eq(cur, L): out.append('%s() reaches the smoothers of levels 0 to %s only, of %s' % (op, show(simp(cur)), show(simp(L))))
    for j, e in enumerate(ps):
        if j not in used: out.append('%s() is called once more for %s smoother(s) from %s' % (op, show(simp(e[2])), show(simp(e[3][0][0]))))
    return out
