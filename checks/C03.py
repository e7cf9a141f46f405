"""C03: every exchange of the owner/overlap/copy communication uses the interface of its index classes, of the current index set."""
from calls import table, CallPaths
from paths import simp, lin_of, lin_add, lin_const, equal_under
from summary import LIN, walk, show
from events import offsets
from pairs import base, by_name, run_pairs
from harness import MPI, Broken
FAIL = lambda nm: 'vt::fail' in nm
def run(ctx):
    ctx.rule('R-exchange', 'an exchange uses the interface from its source to its target attributes, built from the remote indices of this communication, forward, with the copying or adding policy of its name')
    ctx.rule('R-fresh', 'no exchange uses an interface built before the last change of the index set, and none builds an interface that is up to date')
    ctx.rule('R-use', 'parallel operators, preconditioners and scalar products make results consistent by the exchange their category prescribes')
    ctx.rule('R-setup', 'every index and remote index is entered with the attribute and the local number of its own triple, none is left out')
    m = ctx.module('c03.cc', MPI)
    d = by_name(m); n = 0
    for nm in sorted(d):
        if nm.startswith('k_') and nm not in ('k_project', 'k_setup'): table(ctx, m, d[nm], d['s_'+nm[2:]], 'R-exchange', nm[2:]); n += 1
    run_pairs(ctx, 'c03.cc', 'R-exchange', 'OwnerOverlapCopyCommunication', MPI, only=lambda n: n == 'project')
    w = ctx.module('c03_wrap.cc', MPI); e = by_name(w)
    for nm in sorted(e):
        if nm.startswith('k_'): table(ctx, w, e[nm], e['s_'+nm[2:]], 'R-use', nm[2:], calls=lambda nm: 'vt::' in nm and not nm.startswith('std::')); n += 1
    setup(ctx, m, d['k_setup'], dict(global_=0, **{'global': 8, 'local': 4, 'attribute': 0}))
    s = ctx.module('s01_wrap.cc', MPI); e = by_name(s)
    for nm in sorted(e):
        if nm.startswith(('k_bp_', 'k_nb_')): table(ctx, s, e[nm], e['s_'+nm[2:]], 'R-use', nm[2:]); n += 1
    if n < 19: raise Broken('exchanges not found')
    for f in m.functions.values():
        if f.blocks and f.dem and f.dem.startswith('i_') and 'none' not in f.dem: never(ctx, m, f, 'R-fresh', base(f.dem)[2:])

def setup(ctx, m, f, off):
    """every index and every remote index is entered with the attribute (and local number) of its own triple, none is left out"""
    P = CallPaths(m, f, calls=lambda nm: 'vt::' in nm or nm.startswith('MPI_'))
    ctx.functions.add(f.dem[:120])
    bad = None; n = {'enter': 0, 'add': 0}
    def loads(facts, more=()):
        seen = {}
        for c in list(facts) + list(more):
            for t in walk(c):
                if isinstance(t, tuple) and t and t[0] in ('ld', 'ldv'): seen[t] = lin_of(simp(lin_of(t[1])))
        return seen
    for l in P.leaves:
        if l.kind != 'ret': continue
        L = loads(l.st.facts, l.st.trace)
        eq = lambda a, b: equal_under(P, l.st.facts, a, b)
        at = lambda a: [t for t, x in L.items() if x == lin_of(a)]
        def field(base, k, v):      # v is the component k of the triple at base
            return any(eq(v, t) for t in at(simp(lin_add(base, LIN(off[k], [])))))
        entered = []
        for e in l.st.trace:
            if e[0] == 'enter':
                n['enter'] += 1
                b = simp(lin_add(lin_of(e[3]), LIN(-off['global'], [])))
                if not field(b, 'attribute', e[5]) or not field(b, 'local', e[4]) or lin_const(e[6]) != 1: bad = bad or (l, 'enters an index of the local set with the attribute or number of another one')
                if b in entered: bad = bad or (l, 'enters an index twice')
                entered.append(b)
            if e[0] == 'add':
                n['add'] += 1
                bases = {simp(lin_add(x, LIN(-off['attribute'], []))) for t, x in L.items() if eq(t, e[3])} if lin_const(e[3]) is not None else {simp(lin_add(lin_of(e[3][1]), LIN(-off['attribute'], [])))} if e[3][0] in ('ld', 'ldv') else set()
                if not any(eq(g, h) for b in bases for g in at(simp(lin_add(b, LIN(off['global'], [])))) for h in at(simp(lin_of(e[4])))): bad = bad or (l, 'enters a remote index (attribute %s, position %s) that does not belong to the index with this attribute' % (show(e[3]), show(e[4])))
        # a triple whose attribute was looked at and may be one of the three classes is entered
        for t, x in L.items():
            r = [c for c in l.st.facts if t in list(walk(c))]
            if not r or not (isinstance(t, tuple) and t[2] == 'i32'): continue
            b = simp(lin_add(x, LIN(-off['attribute'], [])))
            if b in entered or not any(isinstance(y, tuple) and y and y[0] == 'phi' for y in walk(b)): continue
            if any(e[0] == 'add' and eq(t, e[3]) for e in l.st.trace): continue
            if (at(simp(lin_add(b, LIN(off['global'], []))))) and any(e[0] == 'add' for e in l.st.trace): continue
            free = [k for k in (1, 2, 3) if P.decide(l.st.facts, ('icmp', 'ne', simp(lin_add(LIN(0, [(t, 1)]), LIN(-k, []))))) is not True]
            if free and b not in entered and any(P.decide(l.st.facts, ('icmp', 'eq', simp(lin_add(LIN(0, [(t, 1)]), LIN(-k, []))))) is True for k in free): bad = bad or (l, 'leaves out indices of class %s' % free)
    if min(n.values()) == 0: raise Broken('set-up of the index sets not found')
    ctx.ob('R-setup', 'construction from known indices', not bad, bad[0].where() if bad else m.where(next(f.instrs())), bad[1] if bad else '%d paths' % len(P.leaves))

def never(ctx, m, f, rule, label):
    """no path of the function reaches vt::fail"""
    P = CallPaths(m, f)
    ctx.functions.add(f.dem[:120])
    bad = [l for l in P.leaves if any(FAIL(e[1]) for e in l.st.trace)]
    ctx.ob(rule, label, not bad, bad[0].where() if bad else m.where(next(f.instrs())), 'the bookkeeping of the interfaces no longer describes them afterwards' if bad else '%d paths' % len(P.leaves))
