"""K03: relaxation sweeps, triangular and diagonal solves; preconditioner loops around them."""
import re
import rowwalk as R
import slv as L, summary as S
from events import offsets
from rowspec import *
from pairs import by_name, run_pairs
from harness import Broken
from rowwalk import sh

def specs(Di, nested):
    s = {}
    # one sweep of the next level instead of a solve starts from the present value: x + N(rhs - D x)
    def inner(start, rhs):
        if not nested: return dapp('Di', rhs)
        return lin((start, ONE), (dapp('N', rhs), ONE), (dapp('N', dapp('D', start)), N1))
    offu = lin((b, ONE), (Sm('L', P(1)), N1), (Sm('U', x), N1))            # b - L x_new - U x_old
    offd = lin((b, ONE), (Sm('L', x), N1), (Sm('U', P(1)), N1))
    jac = lin((b, ONE), (Sm('L', x), N1), (Sm('U', x), N1))
    y = inner(x, offu)
    s['dbgs'] = (lin((x, V), (y, W)), [y])
    def damped(off): return lin((x, V), (inner(x, off), W))
    s['bsorf'] = (damped(offu), [damped(offu)])
    s['bsorb'] = (damped(offd), [damped(offd)])
    s['dbjac'] = (damped(jac), [])
    D = 'N' if nested else 'Di'
    lo = lin((b, ONE), (Sm('L', P(1)), N1)); up = lin((b, ONE), (Sm('U', P(1)), N1))
    for n, o in (('bltsolve', lo), ('butsolve', up)):
        for z in ('', '0'):
            c = ONE if z or nested else W            # nested: the damping is left to the inner solve
            f = fscale(dapp(D, o), c); s[n+z] = (f, [f])
            f = fscale(o if not nested else dapp(D, o), c); s['u'+n+z] = (f, [f])
    for z in ('', '0'): s['bdsolve'+z] = (fscale(dapp(D, b), ONE if z or nested else W), [])
    return s

def multitype(ctx, drv, level):
    m = ctx.module(*drv); d = by_name(m); off = offsets(m)
    N = 3
    xs = {off['x%d' % i]: i for i in range(N)}; as_ = {off['a%d%d' % (i, j)]: (i, j) for i in range(N) for j in range(N)}
    def block(a):
        for k, nm in ((1, 'x'), (2, 'b')):
            r = {S.subst(o, {('p', 0): ('p', k)}): i for o, i in xs.items()}
            if a in r: return '%s_%d' % (nm, r[a])
        return None
    for nm in ('dbgs', 'bsorf', 'bsorb', 'dbjac'):
        fn = d.get('k_'+nm)
        if fn is None: raise Broken('k_%s missing' % nm)
        def matop(h, a, i):
            if a not in as_: raise L.Bad('a block of another matrix is used', i)
            return ('A',) + as_[a]
        def extra(ln, i, h, dem, a):
            x = re.search(r'algmeta_itsteps<1', dem)
            if not x: return False
            op = h.split('::')[-1].split('<')[0]
            if op != nm: raise L.Bad('the diagonal block is treated by %s' % op, i)
            A = matop(h, a[0], i); w = ln.v.sc.get(a[3], a[3])
            if w != ('p', 3): raise L.Bad('the next level is called with another damping factor', i)
            s = ln.get(a[1], i); rhs = ln.get(a[2], i)
            ln.put(a[1], L.add(s, L.app(('N',) + A[1:], L.add(rhs, L.app(A, s), L.NEG))), i)
            return True
        name = 'MultiTypeBlockMatrix %s%s' % (nm, ' (nested blocks)' if level > 1 else '')
        ctx.functions.add(name)
        try: ln = L.Line(m, fn, block, matop, {('p', 3): 'w'}, extra)
        except L.Bad as e: ctx.ob('R-multitype', name, False, m.where(e.i), str(e)); continue
        x = [L.init('x_%d' % i) for i in range(N)]; b = [L.init('b_%d' % i) for i in range(N)]
        w = L.var('w'); v = L.padd(L.ONE, L.pmul(L.NEG, w))
        def A(i, j, f): return L.app(('A', i, j), f)
        def inner(i, s, r):
            """from start s with right-hand side r"""
            if level == 1: return L.app(('inv', ('A', i, i)), r)
            return L.add(s, L.app(('N', i, i), L.add(r, A(i, i, s), L.NEG)))
        new = list(x); y = list(x)
        for i in (range(N) if nm != 'bsorb' else range(N-1, -1, -1)):
            src = {'dbgs': y, 'bsorf': new, 'bsorb': new, 'dbjac': x}[nm]
            off_ = b[i]
            for j in range(N):
                if j != i: off_ = L.add(off_, A(i, j, src[j]), L.NEG)
            if level == 1: sol = inner(i, (), off_)
            else: sol = inner(i, x[i], off_)
            y[i] = sol
            new[i] = L.sum_((x[i], v), (sol, w))
        for i in range(N):
            a = S.subst(off['x%d' % i], {('p', 0): ('p', 1)})
            got = ln.get(a, None)
            ba = S.subst(off['x%d' % i], {('p', 0): ('p', 2)})
            if ba in ln.mem and ln.mem[ba] != b[i]: ctx.ob('R-multitype', name, False, '', 'the right-hand side is modified'); break
            if got != new[i]:
                at = [k for q, k in ln.log if q == a]
                ctx.ob('R-multitype', name, False, m.where(at[-1]) if at else '', 'block %d\n    computed:   %s\n    prescribed: %s' % (i, L.sh(got), L.sh(new[i]))); break
        else: ctx.ob('R-multitype', name, True, '', L.sh(new[0]))

def run(ctx):
    for d in ('k03_rows.cc', 'k03_rows2.cc', 'k03_mtb.cc', 'k03_prec.cc'): ctx.prefetch(d)
    ctx.rule('R-sweep', 'on every row of every pattern the kernel yields the prescribed combination of right-hand side, lower, diagonal and upper part, '
             'with the old or the updated neighbour values prescribed, each entry once, the damping factor once; b is not modified')
    ctx.rule('R-nested', 'the same for nested blocks, where the diagonal block is treated by exactly one sweep of the next level that starts from a consistent value')
    ctx.rule('R-multitype', 'the same for the heterogeneous block matrix, block by block')
    ctx.rule('R-prec', 'the preconditioner performs exactly the prescribed sequence of sweeps in each of its iterations')
    roles = {0: ('A',), 1: ('vec', 'x'), 2: ('vec', 'b', True), 3: ('num', (0, 1))}
    for drv, rule, nested in (('k03_rows.cc', 'R-sweep', False), ('k03_rows2.cc', 'R-nested', True)):
        m = ctx.module(drv); d = by_name(m); sp = specs('Di', nested)
        for nm in sorted(d):
            if not nm.startswith('k_'): continue
            scal = nm.endswith('_s')
            name = nm[2:-2] if scal else nm[2:]
            check(ctx, m, d[nm], rule, name + (' (scalar entries)' if scal else ' (nested blocks)' if nested else ''), sp[name], roles)
    multitype(ctx, ('k03_mtb.cc', ()), 1)
    multitype(ctx, ('k03_mtb.cc', ('-DNESTED',)), 2)
    ctx.need('R-multitype', 8)
    run_pairs(ctx, 'k03_prec.cc', 'R-prec', 'preconditioner', min=7)
    ctx.need('R-sweep', 18); ctx.need('R-nested', 14)
