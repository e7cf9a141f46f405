"""K04: application and construction of incomplete factors."""
import re
import rowwalk as R, crswalk, decwalk
from rowspec import *
from pairs import by_name, run_pairs
from harness import Broken
from calls import table
from events import offsets
from summary import simp
from rowwalk import sh

def component(nm): return 'vt::' in nm and not re.match(r'(?:[\w ]+ )?(std|__gnu_cxx)::', nm)

def run(ctx):
    for d in ('k04_rows.cc', 'k04_crs.cc', 'k04_crs2.cc', 'k04_dec.cc', 'k04_prec.cc'): ctx.prefetch(d)
    ctx.rule('R-apply', 'on every row of every pattern: one forward pass with every strictly lower entry once, one backward pass with every strictly upper '
             '(transposed lower) entry once, the inverted diagonal once, updated neighbours throughout')
    ctx.rule('R-convert', 'the split storage holds each strictly lower, each strictly upper and each diagonal entry once, in its row, with row starts that equal the number of entries stored')
    ctx.rule('R-crs', 'the backsolve on split storage performs the prescribed operations')
    ctx.rule('R-prec', 'the preconditioners build the decomposition of their matrix once, apply it once per call and multiply the result by the relaxation factor once, unless that factor is one')
    ctx.rule('R-factor', 'on every row of every pattern: every entry left of the diagonal is eliminated once, in ascending order, with the pivot of its column; exactly the products of '
             'entries of equal column are subtracted, once, before the entry they change is used; the pivot is inverted once, after all of them; no entry outside the row is touched; a row without diagonal entry ends in an exception')
    lo = lin((b, ONE), (Sm('L', P(1)), N1))
    m = ctx.module('k04_rows.cc'); d = by_name(m)
    A = {0: ('A',), 1: ('vec', 'x'), 2: ('vec', 'b', True)}
    up = lambda u: dapp('D', lin((u, ONE), (Sm('U', P(2)), N1)))
    ilu = (up(lo), [lo, up(lo)])
    check(ctx, m, d['k_ilu'], 'R-apply', 'ILU backsolve', ilu, A)
    check(ctx, m, d['k_ilu_s'], 'R-apply', 'ILU backsolve (scalar entries)', ilu, A)
    w = dapp('D', lo)
    for sfx, txt in (('', ''), ('_s', ' (scalar entries)')):
        for low in (0, 1):
            want = (atom(('scattered', 'desc', lin((Sm('L', ('cur', w)), N1)))), [lo])
            check(ctx, m, d['k_ildl' + sfx], 'R-apply', 'ILDL backsolve, %s%s' % ('lower factor only' if low else 'full pattern', txt), want,
                  {**A, 3: ('int', low)}, hasU=(0,) if low else (0, 1))
    y = dapp('E', lo)
    up = lin((y, ONE), (dapp('E', Sm('U', P(2))), N1))
    for t, txt in (('Mat', ''), ('DMat', ' (scalar entries)')):
        f = [f for f in m.functions.values() if f.blocks and 'DILUBacksolve<vt::'+t in f.dem]
        if len(f) != 1: raise Broken('blockDILUBacksolve not found')
        check(ctx, m, f[0], 'R-apply', 'DILU backsolve' + txt, (up, [y, up]), {0: ('A',), 1: ('dvec', 'Dinv'), 2: ('vec', 'x'), 3: ('vec', 'b', True)})
    # split storage
    m = ctx.module('k04_crs.cc'); d = by_name(m); fn = d['k_convert']
    w = crswalk.search(m, fn, {0: ('A',), 1: ('crs', 'lower'), 2: ('crs', 'upper'), 3: ('inv', 'inv')})
    ctx.functions.add('convertToCRS')
    if w.problems:
        (where, txt), i = next(iter(w.problems.items())); ctx.ob('R-convert', 'convertToCRS', False, where, txt)
    else:
        got = {}
        for k, (dr, res) in w.reg.items():
            for n, f in res.items(): got.setdefault(n, []).append((dr, f))
        want = {'lower': [('asc', lin((Sm('L', ('index',)), ONE)))], 'upper': [('desc', lin((Sm('U', ('index',)), ONE)))], 'inv': [('desc', atom('diagonal'))]}
        for n in want:
            ctx.ob('R-convert', n, got.get(n) == want[n], where0(m, fn), 'stored: %s' % '; '.join('%s: %s' % (dr, sh(f)) for dr, f in got.get(n, [])))
    run_pairs(ctx, 'k04_crs2.cc', 'R-crs', 'split storage', min=1)
    run_pairs(ctx, 'k04_block.cc', 'R-factor', 'ILDL block product', min=1)
    m = ctx.module('k04_prec.cc'); d = by_name(m); off = offsets(m)
    for k in sorted(d):
        if not k.startswith('k_'): continue
        cells = [('the relaxation factor', simp(off['DI_w']), 'double'), ('the flag for a relaxation other than one', simp(off['DI_not']), 'i8')] if k == 'k_dilu_ctor' else ()
        table(ctx, m, d[k], d['s_' + k[2:]], 'R-prec', 'preconditioner ' + k[2:], cells, calls=component)
    ctx.need('R-prec', 5)
    m = ctx.module('k04_dec.cc'); d = by_name(m)
    for k, spec in (('ilu0', decwalk.ILU0), ('ildl', decwalk.ILDL), ('dilu', decwalk.DILU)):
        for sfx, txt in (('', 'block entries'), ('_s', 'scalar entries')):
            fn = d['k_' + k + sfx]
            w = decwalk.DecWalk(m, fn, {0: ('A',), **({1: ('dvec', 'Dinv')} if k == 'dilu' else {})}, spec(), bool(sfx))
            ctx.functions.add(fn.dem)
            name = '%s, %s' % (spec.name, txt)
            if w.problems:
                for (where, txt), i in list(w.problems.items())[:3]: ctx.ob('R-factor', name, False, where, txt)
            elif not w.finals: raise Broken('%s: no path through the factorisation' % name)
            else: ctx.ob('R-factor', name, True, where0(m, fn), '%d abstract states' % w.nst)
    ctx.need('R-apply', 8); ctx.need('R-factor', 6); ctx.need('R-convert', 3)
