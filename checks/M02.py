"""M02: with run-time checking every size that takes part in an operation is compared, and nothing is written before a mismatch is rejected."""
from paths import Paths, simp, consistent
from pairs import by_name
from events import offsets
from harness import Broken
from summary import show, walk
from M01 import Coarse, dirty, INTERNAL
import re

class Guard(Coarse):
    def vague(self, x): return any(isinstance(t, tuple) and t and t[0] in ('phi', 'lv', 'sel', 'call', 'ldv') for t in walk(x))

def ev(P, st, i, nm, args, callee=None):
    if nm == 'store': return None
    if 'lower_bound<' in nm:
        st.env[('call', i.res)] = ('fn', 'lower_bound', args[0], args[1], P.load(st, args[2], 'i64')); return [st]
    if 'includesindexset' in nm:
        st.env[('call', i.res)] = ('fn', 'includes', args[0], args[1]); return [st]
    return None

def pure(nm): return 'lower_bound<' in nm or 'includesindexset' in nm

def run(ctx):
    ctx.rule('R-reject', 'whenever two of the participating sizes disagree or an index is out of range the call throws, and otherwise it does not')
    ctx.rule('R-before', 'on every path that rejects the call nothing but local objects has been written')
    m = ctx.module('m02.cc'); d = by_name(m)
    for k in sorted(d):
        if k.startswith('k_'): one(ctx, m, d, k[2:])
    ctx.need('R-reject', 60); ctx.need('R-before', 60)

def one(ctx, m, d, op):
    k, s = d['k_' + op], d['s_' + op]
    ctx.functions.add(k.dem)
    where = m.where(next(k.instrs()))
    B = Paths(m, s, event=ev, pure=pure)
    known = {t for l in B.leaves for c in l.st.facts for t in walk(c) if isinstance(t, tuple) and t and t[0] in ('p', 'ld', 'fn')}
    A = Guard(m, k, event=ev, pure=pure, limit=20000, irrelevant=irrelevant(known), cells=(), own=None)
    bad = []; w = []
    if not [l for l in A.leaves if not INTERNAL.search(str(l.val))]: raise Broken('%s: no path' % op)
    rets = [l.st.facts for l in A.leaves if l.kind == 'ret']
    for la in A.leaves:
        if la.kind == 'throw' and INTERNAL.search(str(la.val)): continue
        for lb in B.leaves:
            if consistent(A, la.st.facts, lb.st.facts) is None: continue
            ctxt = 'when ' + ' and '.join(sorted(show(c)[:100] for c in lb.st.facts))
            if lb.kind == 'ret':
                if la.kind == 'throw' and not any(f <= la.st.facts for f in rets): bad.append(('%s the call throws' % ctxt, la))
            elif la.kind == 'ret': bad.append(('%s the call is not rejected' % ctxt, la))
            else: w += [(t + ' ' + ctxt, la) for t in dirty(A, la, A.own)]
    ctx.ob('R-reject', op, not bad, bad[0][1].where() if bad else where, bad[0][0] if bad else '%d paths' % len(A.leaves))
    ctx.ob('R-before', op, not w, w[0][1].where() if w else where, w[0][0] if w else '')

def irrelevant(known):
    def irr(c):
        if any(isinstance(t, tuple) and t and t[0] in ('ldv', 'phi', 'lv', 'sel', 'call') for t in walk(c)): return True
        ts = [t for t in walk(c) if isinstance(t, tuple) and t and t[0] in ('p', 'ld', 'fn')]
        return not any(t in known and t[0] != 'p' or t in known for t in ts)
    return irr
