"""Prescribed results of row kernels and their comparison with what rowwalk derives."""
import itertools
import rowwalk as R
from rowwalk import F, ONE, dapp, atom, fadd, fscale
from harness import Broken
W = (0, 1); V = (1, -1); N1 = (-1, 0)
def Sm(g, v): return atom(('S', g, v))
def P(n): return ('P', n)
def lin(*t):
    r = F()
    for f, c in t: r = fadd(r, f, c)
    return r
x = atom('x'); b = atom('b')
def old(v='x'): return atom(v)

def check(ctx, m, fn, rule, name, want, roles, hasU=(0, 1), vec='x', keep=('b',)):
    """one obligation: the kernel yields the prescribed result on every row of every pattern"""
    ctx.functions.add(name)
    try:
        w = R.Walk(m, fn, roles, hasU=hasU)
        if w.problems:
            (where, txt), i = next(iter(w.problems.items()))
            ctx.ob(rule, name, False, where, txt); return w
        if not w.finals: raise Broken('%s: no path to the end' % name)
        got = R.canon(w, vec)
        for k, f, i in w.finals:
            for v in keep:
                if v in f and f[v] != atom(v): ctx.ob(rule, name, False, m.where(i), '%s is modified' % v); return w
    except R.Bad as e:
        ctx.ob(rule, name, False, where0(m, fn), str(e)); return None
    ok = same(got, want)
    ctx.ob(rule, name, ok, where0(m, fn), ('every row of every pattern: ' + R.shc(got)) if ok else
           'computed:   %s\n    prescribed: %s' % (R.shc(got), R.shc(want)))
    return w
def same(a, b):
    """equal up to the numbering of the definitions"""
    if len(a[1]) != len(b[1]): return False
    n = len(a[1])
    for p in itertools.permutations(range(n)):
        def ren(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'P' and isinstance(x[1], int): return ('P', p[x[1]-1]+1)
                if x and x[0] == 'F': return F(*((ren(k), c) for k, c in x[1]))
                return tuple(ren(y) for y in x)
            return x
        if ren(a[0]) == b[0] and all(ren(a[1][i]) == b[1][p[i]] for i in range(n)): return True
    return False
def where0(m, fn):
    """source position of the kernel proper: the first instruction that is not in the driver"""
    for bl in fn.blocks.values():
        for i in bl.instrs:
            wh = m.where(i)
            if wh and 'dune/istl' in wh: return wh
    return ''
