"""C01: declared categories and the category guards of the constructors."""
import harness as H
from pairs import run_pairs
def run(ctx):
    ctx.rule('R-declared', 'every component declares the category prescribed for it (a constant, or the category it was given)')
    run_pairs(ctx, 'c01_cat.cc', 'R-declared', 'category', tuple(H.MPI + H.METIS + H.DIRECT))
    guards(ctx)

from paths import Paths, consistent, equal_under, simp, lin_of, lin_add
from pairs import by_name
from events import offsets
from M01 import INTERNAL, Coarse, entries
from absint import root
from harness import Broken
from summary import show, walk, subst, LIN, lin_const
import re

def component(x):
    """(object, slot) of a call through the virtual table"""
    if not (isinstance(x, tuple) and x and x[0] in ('ld', 'ldv')): return None
    a = lin_of(x[1])
    vt = [(t, k) for t, k in a[2] if isinstance(t, tuple) and t and t[0] in ('ld', 'ldv')]
    if len(a[2]) != 1 or len(vt) != 1 or vt[0][1] != 1: return None
    return vt[0][0][1], a[1]

def ev(P, st, i, nm, args, callee=None):
    if nm == 'store': return None
    if callee is not None:
        c = component(callee)
        if c is None and len(args) == 1 and isinstance(callee, tuple) and callee[0] in ('ld', 'ldv'):
            g = root(callee[1])
            if isinstance(g, tuple) and g[0] == 'g' and '_ZTV' in str(g[1]):
                v = P.callee(st, args[0], str(g[1]), lin_add(lin_of(callee[1]), lin_of(g), -1)[1])
                if v is not None: st.env[('call', i.res)] = v; return [st]
        if c and c[1] in P.slots and len(args) == 1:
            st.env[('call', i.res)] = P.known(st, args[0], c[1]) or ('fn', 'category', args[0]); return [st]
    elif nm.endswith('::category() const') and len(args) == 1:
        st.env[('call', i.res)] = ('fn', 'category', args[0]); return [st]
    return None

class CP(Coarse):
    """locals, arguments and the object under construction exactly; the rest of the memory (reference counts) only as 'has been written'"""
    slots = ()
    def exact(self, a):
        r = root(a)
        return isinstance(r, tuple) and r and (r[0] in ('al', 'p') or r[0] in ('call', 'new', 'ld') and not str(lin_add(lin_of(a), lin_of(r), -1)[1]) in ('8', '12'))
    def __init__(self, *a, **kw): self.vptr = {}; super().__init__(*a, **kw)
    def exec(self, i, st): return Paths.exec(self, i, st)
    def store(self, st, a, ty, x, site):
        g = root(x)
        if isinstance(g, tuple) and g[0] == 'g' and '_ZTV' in str(g[1]): self.vptr[a] = (str(g[1]), lin_add(lin_of(x), lin_of(g), -1)[1])
        super().store(st, a, ty, x, site)
    def known(self, st, obj, slot):
        """the declared category of an object constructed in this function"""
        r = root(obj)
        if obj not in self.vptr or not (isinstance(r, tuple) and r[0] in ('call', 'new', 'al')): return None
        g, o = self.vptr[obj]
        return self.callee(st, obj, g, o + slot)
    def callee(self, st, obj, g, o):
        es = re.findall(r'ptr (?:@("[^"]*"|[\w.$]+)|null)', self.m.globals.get(g, ''))
        k = o//8
        f = self.m.functions.get(es[k].strip('"')) if k < len(es) else None
        if f is None or not f.blocks: return None
        ls = Paths(self.m, f).leaves
        if len(ls) != 1 or ls[0].kind != 'ret': return None
        return self.value(st, subst(ls[0].val, {('p', 0): obj}))
    def value(self, st, x):
        if lin_const(x) is not None: return x
        x = lin_of(x)
        if x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1 and isinstance(x[2][0][0], tuple) and x[2][0][0][0] == 'ld':
            a, t = x[2][0][0][1:3]
            for e in entries(st.log):
                if e[0] == 'st' and e[1] == simp(a) and e[2] == t: return e[3]
        return None
    def vague(self, x): return any(isinstance(t, tuple) and t and t[0] in ('phi', 'lv', 'sel') for t in walk(x))

def guards(ctx):
    ctx.rule('R-guard', 'the constructor returns exactly when the categories of its components agree as prescribed, and throws otherwise; the object has the prescribed category')
    unit(ctx, 'c01_ctor.cc', (), {'off': 'category'}); unit(ctx, 'c01_amg.cc', tuple(H.MPI), {})

def unit(ctx, drv, flags, _):
    m = ctx.module(drv, flags); d = by_name(m); off = offsets(m)
    slots = set()
    for f in m.functions.values():
        if f.dem and f.dem.startswith('probe_') and f.blocks:
            P = Paths(m, f, event=lambda P, st, i, nm, args, callee=None: slots.add(component(callee)[1]) or [st] if callee is not None else None)
    if not slots: raise Broken('category slot not found')
    CP.slots = frozenset(slots)
    for k in sorted(d):
        if k.startswith('k_'): guard(ctx, m, d, k[2:], off, {'category': simp(off['category'])})

def guard(ctx, m, d, op, off, cells):
    k, s = d['k_' + op], d['s_' + op]
    ctx.functions.add(k.dem)
    pure = lambda nm: nm.endswith('::category() const')
    B = CP(m, s, event=ev, pure=pure)
    rel = lambda c: not any(isinstance(t, tuple) and t and (t[0] == 'fn' or t == ('p', 1) and op.endswith('sp')) for t in walk(c))
    A = CP(m, k, event=ev, pure=pure, limit=20000, irrelevant=rel)
    bad = []
    for la in A.leaves:
        if la.kind == 'throw' and INTERNAL.search(str(la.val)): continue
        for lb in B.leaves:
            f = consistent(A, la.st.facts, lb.st.facts)
            if f is None: continue
            t = 'when ' + (' and '.join(sorted(show(c)[:100] for c in lb.st.facts)) or 'always')
            if la.kind != lb.kind: bad.append(('%s: the constructor %s' % (t, 'returns' if la.kind == 'ret' else 'throws'), la))
            elif la.kind == 'ret' and op.endswith('sp'):
                if not equal_under(A, f, la.val, lb.val): bad.append(('%s: the scalar product declares %s' % (t, show(la.val)[:100]), la))
            elif la.kind == 'ret' and not op.startswith('i2p') and op != 'hier':
                for nm, a in cells.items():
                    x, y = A.load(la.st, a, 'i32'), B.load(lb.st, a, 'i32')
                    if not equal_under(A, f, x, y): bad.append(('%s: the %s becomes %s, prescribed %s' % (t, nm, show(x)[:100], show(y)[:100]), la))
    if not any(l.kind == 'ret' for l in A.leaves): raise Broken('%s: no normal return' % op)
    ctx.ob('R-guard', op, not bad, bad[0][1].where() if bad else m.where(next(k.instrs())), bad[0][0] if bad else '%d paths' % len(A.leaves))
