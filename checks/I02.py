"""I02: iterators of the containers."""
from pairs import run_pairs, by_name
from paths import Paths, simp, consistent
from summary import show
from harness import Broken
import re
from M01 import INTERNAL

def ev(P, st, i, nm, args, callee=None):
    if 'lower_bound<' in nm:
        st.env[('call', i.res)] = ('fn', 'lower_bound', args[0], args[1], P.load(st, args[2], 'i64')); return [st]
    return None
def pure(nm): return 'lower_bound<' in nm

def run(ctx):
    ctx.rule('R-position', 'the ends of a range, every step and jump, comparison, distance, conversion and look-up of an iterator give the position (address) and the index that the position has in the storage of the container')
    run_pairs(ctx, 'i02.cc', 'R-position', 'iterators', min=150)
    ctx.rule('R-find', 'looking up an index in a row gives the entry the ordered search finds if the index there is the requested one, and the end (or an exception, for element access) otherwise')
    find(ctx)
    ctx.assumptions += ['iterators that are compared belong to the same container', 'standard library iterators do what their names say', 'the columns of a row are sorted (M01)']

def find(ctx):
    m = ctx.module('i02_find.cc'); d = by_name(m); n = 0
    for op in sorted(k[2:] for k in d if k.startswith('k_')):
        k, s = d['k_' + op], d['s_' + op]
        ctx.functions.add(k.dem)
        A = Paths(m, k, event=ev, pure=pure); B = Paths(m, s, event=ev, pure=pure)
        if not any('lower_bound' in repr(l.st.facts) for l in A.leaves): ctx.assumptions.append(op + ' uses another search: not decided'); continue
        bad = []
        for la in A.leaves:
            if la.kind == 'throw' and INTERNAL.search(str(la.val)): continue
            for lb in B.leaves:
                if consistent(A, la.st.facts, lb.st.facts) is None: continue
                if la.kind != lb.kind: bad.append((la, 'throws' if la.kind == 'throw' else 'returns', lb))
                elif la.kind == 'ret' and la.val != lb.val: bad.append((la, 'gives ' + show(la.val), lb))
        n += 1
        ctx.ob('R-find', op, not bad, bad[0][0].where() if bad else m.where(next(k.instrs())), '%s when %s' % (bad[0][1], ' and '.join(sorted(show(c)[:100] for c in bad[0][2].st.facts))) if bad else '%d paths' % len(A.leaves))
