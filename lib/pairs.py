"""Library function k_NAME against specification function(s) s_NAME[_n] of the same driver unit, under pre_NAME."""
import re
import ir as IR, summary as S
from summary import FnView, LIN, lin_add, simp
from compare import compare
from harness import Broken

def base(dem): return re.match(r'([\w~]+)', dem).group(1)

def by_name(m):
    d = {}
    for f in m.functions.values():
        b = base(f.dem) if f.dem else ''
        if b and f.blocks and re.match(r'(k|s|pre)_', b): d[b] = f
    return d

def equalities(m, f):
    """pre_NAME returns a conjunction of equalities: turn it into term -> expression"""
    v = FnView(m, f)
    out = {}
    for e in v.effects():
        if e.kind == 'ret': c = e.args[0]
    todo = []
    def flat(c):
        if isinstance(c, tuple) and c[0] == 'and': [flat(x) for x in c[1:]]
        elif isinstance(c, tuple) and c[0] == 'ite' and S.lin_const(c[3]) == 0: flat(c[1]); flat(c[2])
        elif isinstance(c, tuple) and c[0] == 'icmp' and c[1] == 'eq': todo.append(c[2])
        elif isinstance(c, tuple) and c[0] == 'merge': raise Broken('precondition of unexpected shape')
        else: raise Broken('precondition of unexpected shape %r' % (c,))
    flat(c)
    for d in todo:
        d = S.subst(d, out)
        ts = [t for t in S.lin_of(d)[2] if isinstance(t[0], tuple) and t[0][0] == 'ld']
        if not ts: continue
        # eliminate the term with the largest argument number (the vector side)
        t, k = max(ts, key=lambda t: (max([x[1] for x in S.walk(t[0]) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'p'] or [0]), repr(t)))
        rest = lin_add(d, LIN(0, [(t, k)]), -1)
        out = {a: S.subst(b, {t: simp(S.lin_scale(rest, -k))}) for a, b in out.items()}
        out[t] = simp(S.lin_scale(rest, -k))   # k is +-1
    return out

def view(m, f, eq):
    return FnView(m, f, equiv=eq)

def run_pairs(ctx, driver, rule, label, flags=(), flips=True, only=None, order=True, skip=None, min=1, drop=None):
    m = ctx.module(driver, flags)
    d = by_name(m)
    n = 0
    for nm in sorted(d):
        if not nm.startswith('k_'): continue
        name = nm[2:]
        if only and not only(name): continue
        specs = [d[x] for x in sorted(d) if x == 's_'+name or re.fullmatch('s_'+re.escape(name)+r'_\d+', x)]
        if not specs: raise Broken('no specification for %s in %s' % (name, driver))
        eq = equalities(m, d['pre_'+name]) if 'pre_'+name in d else {}
        kv = view(m, d[nm], eq)
        n += 1
        ctx.functions.add((driver, name))
        if kv.noreturn:
            ctx.ob(rule, label + '::' + name, False, '', 'the function never returns normally'); continue
        fl = flips(name) if callable(flips) else flips
        ok, txt = compare(kv, [view(m, s, eq) for s in specs], flips=fl, order=order, skip=skip, drop=drop)
        w = re.search(r'at (\S+:\d+)', txt)
        ctx.ob(rule, label + '::' + name, ok, w.group(1) if w and not ok else '', txt)
    if n < min: raise Broken('%s: only %d kernels found' % (driver, n))
    return m
