"""Path-sensitive abstract interpretation over the event view of a function.

Abstract state: (automaton state, set of boolean facts, conjunction of linear integer inequalities).  States are kept
disjunctively per program point, one per automaton state and boolean-fact set; the linear part is joined (constraints
implied by both sides survive) and widened.  Branch conditions refine the state, so infeasible combinations of
correlated tests are not explored."""
import ir as IR, summary as S
from summary import LIN, lin_add, lin_of, lin_scale, simp, walk, lin_const, is_lin, subst
from events import EvView

TRACKED = ('i8', 'i32', 'i64', 'double')
class IvView(EvView):
    """EvView whose phis are resolved to induction variables where possible, in which every load of a small local (or
    result record) cell is its own value, and in which floating point counters with dyadic steps are linear forms"""
    def tracked(self, addr, ty):
        if ty not in TRACKED: return False
        r = root(addr)
        if isinstance(r, tuple) and r and r[0] == 'al':
            if ty != 'double': return True
            return self.fn.defs[r[1]].gepty == 'double'
        return isinstance(r, tuple) and r in self.cells
    cells = ()
    def canon_i(self, ins):
        if ins.op == 'load':
            a = self.canon(ins.ops[0])
            if self.tracked(a, str(ins.ty)):
                return ('lv', ins.res) if str(ins.ty) != 'double' else ('flv', ins.res)
        if ins.op == 'trunc' and str(ins.ty) == 'i1':
            return self.mkcmp('icmp', 'ne', self.canon(ins.ops[0]), LIN(0))
        return super().canon_i(ins)
    def twice(self, x):
        """2*x as a linear form over integer values and counters, or None"""
        if not isinstance(x, tuple) or not x: return None
        if x[0] == 'f':
            return LIN(int(2*x[1])) if abs(x[1]) < 1e9 and 2*x[1] == int(2*x[1]) else None
        if x[0] in ('sitofp', 'uitofp'): return lin_scale(x[1], 2)
        if x[0] == 'fsum':
            r = LIN(0)
            for y in x[1]:
                t = self.twice(y)
                if t is None: return None
                r = lin_add(r, t)
            return r
        if x[0] == 'fprod' and x[1] == -1.0 and len(x[2]) == 1:
            t = self.twice(x[2][0])
            return None if t is None else lin_scale(t, -1)
        if x[0] in ('phi', 'flv', 'ld'): return LIN(0, [(('2x', x), 1)])
        return None
    def mkcmp(self, op, pred, a, b):
        if op == 'fcmp' and pred[1:] in ('lt', 'le', 'gt', 'ge', 'eq') or pred == 'une':
            x, y = self.twice(a), self.twice(b)
            if x is not None and y is not None and any(isinstance(t, tuple) for t, _ in x[2] + y[2]):
                p = {'lt': 'slt', 'le': 'sle', 'gt': 'sgt', 'ge': 'sge', 'eq': 'eq', 'ne': 'ne'}[pred[1:]]
                return super().mkcmp('icmp', p, x, y)
        return super().mkcmp(op, pred, a, b)
    def _phi(self, ins):
        b = ins.block.name
        if ins.res in self.active: return self.active[ins.res]
        if not self.noreturn and b in self.loops and ins.ty in ('i64', 'i32'):
            outs = [v for v, p in ins.phis if p not in self.loops[b] and p in self.u.succ]
            inn = [v for v, p in ins.phis if p in self.loops[b] and p in self.u.succ]
            if outs and inn:
                me = ('phivar', ins.res)
                self.active[ins.res] = me
                try: nx = {self.canon(v) for v in inn}; st = {self.canon(v) for v in outs}
                finally: del self.active[ins.res]
                if len(nx) == 1 and len(st) == 1:
                    nx = nx.pop(); st = st.pop()
                    d = lin_add(nx, me, -1)
                    if d[2] == () and d[1] != 0 and not any(t == me for t in walk(st)):
                        return simp(lin_add(st, LIN(0, [(('it', b), d[1])])))
        return super()._phi(ins)

# ------------------------------------------------------------------ linear part
def tighten(L):
    """keep the strongest constraint per linear part; None when contradictory"""
    best = {}
    for e in L:
        if not e[2]:
            if e[1] > 0: return None
            continue
        k = e[2]
        if k not in best or e[1] > best[k]: best[k] = e[1]
    for k, c in best.items():
        n = tuple((t, -q) for t, q in k)
        if n in best and c + best[n] > 0: return None
    return frozenset(('lin', c, k) for k, c in best.items())
def norm(e):
    from math import gcd
    g = 0
    for _, k in e[2]:
        if isinstance(k, float): return e
        g = gcd(g, k)
    if g > 1 and isinstance(e[1], int):
        # e <= 0 over integers: ceil
        return ('lin', -((-e[1])//g), tuple((t, k//g) for t, k in e[2]))
    return e
def infeasible(L, depth=0):
    L = tighten([norm(e) for e in L])
    if L is None: return True
    L = set(L)
    while L:
        terms = {}
        for e in L:
            for t, k in e[2]:
                p, n = terms.get(t, (0, 0))
                terms[t] = (p + (k > 0), n + (k < 0))
        if not terms: return False
        # cheapest elimination
        t = min(terms, key=lambda t: terms[t][0]*terms[t][1] - terms[t][0] - terms[t][1])
        pos = []; neg = []; rest = []
        for e in L:
            k = dict(e[2]).get(t, 0)
            (pos if k > 0 else neg if k < 0 else rest).append((e, k))
        out = [e for e, _ in rest]
        if len(pos)*len(neg) > 400: return False
        for a, k in pos:
            for b, l in neg:
                out.append(norm(lin_add(lin_scale(a, -l), lin_scale(b, k))))
        L = tighten(out)
        if L is None: return True
        L = set(L)
    return False
def related(L, g):
    """constraints connected with the terms of g"""
    ts = {t for t, _ in lin_of(g)[2]}
    L = list(L); out = set(); ch = True
    while ch:
        ch = False
        for e in L:
            if e not in out and any(t in ts for t, _ in e[2]):
                out.add(e); ch = True
                for t, _ in e[2]: ts.add(t)
    return out
MM = ('smin', 'smax')
def mmterms(es):
    out = []
    for e in es:
        for t, _ in e[2]:
            if isinstance(t, tuple) and len(t) == 4 and t[0] == 'intr' and t[1] in MM and t not in out: out.append(t)
    return out
def axioms(t):
    """min <= arguments, max >= arguments"""
    s = 1 if t[1] == 'smin' else -1
    return [lin_scale(lin_add(LIN(0, [(t, 1)]), a, -1), s) for a in t[2:]]
def with_axioms(L):
    L = list(L); done = set()
    while True:
        new = [t for t in mmterms(L) if t not in done]
        if not new: return L, done
        for t in new: done.add(t); L += axioms(t)
def entails(L, g):
    """L |= g <= 0 over the integers"""
    g = lin_of(g)
    if not g[2]: return g[1] <= 0
    for e in L:
        if e[2] == g[2] and e[1] >= g[1]: return True
    ng = lin_add(LIN(1), g, -1)    # g >= 1
    R = list(related(L, g)) + [ng]
    if not mmterms(R): return infeasible(R)
    R, ts = with_axioms(list(L) + [ng])
    ts = list(ts)[:3]
    def split(R, ts):
        if infeasible(R): return True
        if not ts: return False
        t = ts[0]; s = 1 if t[1] == 'smin' else -1
        for a in t[2:]:       # t equals one of its arguments: the missing half of the equality
            if not split(R + [lin_scale(lin_add(LIN(0, [(t, 1)]), a, -1), -s)], ts[1:]): return False
        return True
    return split(R, ts)
def project(L, bad):
    """eliminate the terms satisfying bad"""
    L = set(L)
    mm = [t for t in mmterms(L) if bad(t)]
    if mm:
        for t in mm: L |= set(axioms(t))
    while True:
        ts = {t for e in L for t, _ in e[2] if bad(t)}
        if not ts: return frozenset(L)
        t = min(ts, key=lambda t: (sum(1 for e in L if dict(e[2]).get(t, 0) > 0) * sum(1 for e in L if dict(e[2]).get(t, 0) < 0), repr(t)))
        pos = []; neg = []; rest = []
        for e in L:
            k = dict(e[2]).get(t, 0)
            (pos if k > 0 else neg if k < 0 else rest).append((e, k))
        out = [e for e, _ in rest]
        if len(pos)*len(neg) <= 64:
            for a, k in pos:
                for b, l in neg:
                    e = norm(lin_add(lin_scale(a, -l), lin_scale(b, k)))
                    if e[2] and len(e[2]) <= 6: out.append(e)
        L = set(tighten(out) or ())
def join_lin(a, b):
    if a == b: return a
    r = {e for e in a if entails(b, e)} | {e for e in b if entails(a, e)}
    return tighten(r) or frozenset()

class Infeasible(Exception): pass

class Engine:
    """delta(q, ev, st) -> list of (q', [(cond, truth)...]) or None;  problem(msg, ev) collects violations"""
    def __init__(self, v, evs, delta, exc=None, relevant=None, kill=None, init_facts=(), ghost=(), maxdis=14, edgeq=None, normal_only=False):
        self.v = v; self.delta = delta; self.exc = exc; self.killf = kill
        self.edgeq = edgeq
        self.evs = with_loads(v, evs)
        u = v.u
        self.succ = {b: [s for s in ss if not normal_only or (s in v.keep and not (v.fn.blocks[b].instrs[-1].op == 'invoke' and s == v.fn.blocks[b].instrs[-1].unwind))]
                     for b, ss in u.succ.items() if not normal_only or b in v.keep}
        self.init_facts = list(init_facts); self.maxdis = maxdis
        self.ghost = ghost
        self._prep()
        self.relevant = relevant or self._default_relevant()
    # ---- preparation
    def _prep(self):
        v = self.v
        self.phis = {}; self.boolphis = set()
        self.dead = {}
        if not v.noreturn:
            where = {i.res: b for b in v.fn.order for i in v.fn.blocks[b].instrs if i.res}
            for h, body in v.loops.items():
                S_ = set()
                for b in body:
                    for i in v.fn.blocks[b].instrs:
                        if i.res and not (b == h and i.op == 'phi'): S_.add(i.res)
                self.dead[h] = (S_, {g for g in v.loops if g in body and g != h})
        self.defs = {}
        self.conds = {}
        count = {}
        for b in self.succ:
            P = []
            for i in v.fn.blocks[b].instrs:
                if i.op == 'phi':
                    c = v.canon_i(i)
                    if c == ('phi', i.res) and i.ty == 'i1': self.boolphis.add(c)
                    if c == ('phi', i.res) and i.ty != 'ptr': P.append((c if str(i.ty) not in ('double','float') else ('2x', c), {p: x for x, p in i.phis}))
            self.phis[b] = P
            t = v.fn.blocks[b].instrs[-1]
            if t.op == 'br' and len(t.targets) == 2 and t.targets[0] != t.targets[1]:
                c = v.canon(t.ops[0]); self.conds[b] = c
                for a in set(self._atoms(c)): count[a] = count.get(a, 0) + 1
        self.count = count
        self.alldefs = {}
    def _atoms(self, c):
        if isinstance(c, tuple) and c and c[0] in ('and', 'or', 'not'):
            for x in c[1:]: yield from self._atoms(x)
        elif isinstance(c, tuple) and c and c[0] == 'ite':
            for x in c[1:]: yield from self._atoms(x)
        elif isinstance(c, tuple) and c and c[0] == 'icmp':
            for t, _ in c[2][2]: yield t
        elif lin_const(c) is None: yield c
    def _default_relevant(self):
        cnt = self.count
        phiterms = {c for P in self.phis.values() for c, _ in P}
        def rel(t): return cnt.get(t, 0) >= 2 or t in phiterms or (isinstance(t, tuple) and t and (t[0] in ('lv', 'flv', 'it') or t[0] == '2x' and t[1][0] == 'flv' or (t[0] in ('ld', '2x') and t in self.cellterms)))
        self.cellterms = {x for L in self.evs.values() for e in L if e.kind == 'load' for x in cell_terms(e)}
        return rel
    # ---- assume
    def assume(self, st, c):
        """refine (B, L) with canonical condition c being true; returns list of (B, L)"""
        B, L = st
        k = lin_const(c)
        if k is not None: return [st] if k else []
        h = c[0]
        if h == 'and':
            S_ = [st]
            for x in c[1:]: S_ = [r for s in S_ for r in self.assume(s, x)]
            return S_
        if h == 'or':
            out = []; cur = [st]
            for x in c[1:]:
                out += [r for s in cur for r in self.assume(s, x)]
                cur = [r for s in cur for r in self.assume(s, self.v.neg(x))]
            return out
        if h == 'ite':
            return [r for s in self.assume(st, c[1]) for r in self.assume(s, c[2])] + \
                   [r for s in self.assume(st, self.v.neg(c[1])) for r in self.assume(s, c[3])]
        if h == 'not' and isinstance(c[1], tuple) and c[1] and c[1][0] == 'ite':
            x = c[1]
            return self.assume(st, ('ite', x[1], self.v.neg(x[2]), self.v.neg(x[3])))
        if h == 'icmp':
            p, d = c[1], c[2]
            if p in ('eq', 'ne') and d[1] == 0 and len(d[2]) == 1:
                t = d[2][0][0]
                if (t if p == 'eq' else ('not', t)) in B: return []
                if self.boolish(t) and self._rel_b(t):
                    B = B | {('not', t) if p == 'eq' else t}
                    st = (B, L)
            cs = []
            if p in ('sle', 'ule'): cs = [d]
            elif p in ('sge', 'uge'): cs = [lin_scale(d, -1)]
            elif p == 'eq': cs = [d, lin_scale(d, -1)]
            if p == 'ne':
                le = entails(L, d); ge = entails(L, lin_scale(d, -1))
                if le and ge: return []
                if le: cs = [lin_add(d, LIN(1))]
                elif ge: cs = [lin_add(lin_scale(d, -1), LIN(1))]
                else:
                    return [(self._addb(B, c), L)]
            cs = [x for e in cs for x in self._expand(e)]
            n = self.v.neg(c)
            if n in B: return []
            for e in cs:
                g = lin_add(LIN(1), e, -1)    # negation: e >= 1
                if entails(L, g): return []
            if not all(self.relevant(t) for t, _ in d[2]): return [st]
            L2 = tighten([norm(e) for e in list(L) + cs])
            if L2 is None: return []
            if p == 'eq' :
                # ne facts contradict
                if ('icmp', 'ne', d) in B: return []
            return [(B, L2)]
        n = self.v.neg(c)
        if n in B: return []
        # resolve facts about i1 terms
        if not self._rel_b(c): return [st]
        return [(B | {c}, L)]
    def boolish(self, t):
        if t in self.boolphis: return True
        return isinstance(t, tuple) and len(t) == 2 and t[0] in ('phi', 'lv') and str(self.v.fn.defs[t[1]].ty) in ('i1', 'i8')
    def _expand(self, e):
        """e <= 0 with a term min(a,b): x <= min  ->  both;  x >= max -> both"""
        out = [e]
        for t, k in e[2]:
            if isinstance(t, tuple) and t[0] == 'intr' and ((t[1] == 'smin' and k < 0) or (t[1] == 'smax' and k > 0)):
                rest = LIN(e[1], [(u, q) for u, q in e[2] if u != t])
                for a in t[2:]:
                    out += self._expand(lin_add(rest, lin_scale(a, k)))
        return out
    def _rel_b(self, c):
        base = c[1] if c[0] == 'not' else c
        return self.relevant(base) or any(isinstance(t, tuple) and self.relevant(t) for t in walk(base) if t != base and isinstance(t, tuple) and t and t[0] in ('ld','call','phi'))
    def _addb(self, B, c):
        if all(self.relevant(t) for t, _ in c[2][2]): return B | {c}
        return B
    # ---- transfer along an edge
    def edge(self, a, s, st):
        q, B, L = st
        v = self.v
        t = v.fn.blocks[a].instrs[-1]
        outs = [(B, L)]
        if t.op == 'br' and len(t.targets) == 2 and t.targets[0] != t.targets[1]:
            c = self.conds[a]
            if t.targets[0] != s: c = v.neg(c)
            outs = self.assume((B, L), c)
        elif t.op == 'switch':
            x = v.canon(t.ops[0])
            vals = [y for y, b in t.cases if b == s]
            if t.targets[0] != s and len(vals) == 1:
                outs = self.assume((B, L), v.mkcmp('icmp', 'eq', x, LIN(vals[0])))
            elif t.targets[0] == s:
                for y, b in t.cases:
                    if b != s: outs = [r for o in outs for r in self.assume(o, v.mkcmp('icmp', 'ne', x, LIN(y)))]
        res = []
        asg = []
        for c, inc in self.phis[s]:
            if a in inc:
                x = v.canon(inc[a])
                if c[0] == '2x':
                    x = v.twice(x)
                    if x is None: x = ('opaque', c, a)
                asg.append((c, x))
        if not v.noreturn and s in v.loops:
            it = ('it', s)
            asg.append((it, simp(LIN(1, [(it, 1)])) if a in v.loops[s] else LIN(0)))
        if self.edgeq: q = self.edgeq(q, a, s)
        for B, L in outs:
            r = self.assign(B, L, asg)
            if r is None: continue
            if s in self.dead:
                D, H = self.dead[s]
                if self.ghost: r = (r[0], self.relate(r[1], [t for t, _ in asg]))
                r = self.kill(r[0], r[1], lambda y: (y[0] in ('phi', 'lv', 'flv', 'call') and len(y) == 2 and y[1] in D) or (y[0] == 'it' and y[1] in H))
            res.append((q,) + r)
        return res
    def relate(self, L, ts):
        """differences of ghosts and loop counters, both constant here, as relations that survive the join"""
        def const(t):
            lo = [e[1] for e in L if e[2] == ((t, -1),)]; hi = [-e[1] for e in L if e[2] == ((t, 1),)]
            return max(lo) if lo and hi and max(lo) == min(hi) else None
        add = []
        for n in self.ghost:
            a = const(n)
            if a is None: continue
            for t in ts:
                b = const(t)
                if b is None: continue
                d = LIN(b - a, [(n, 1), (t, -1)]); add += [d, lin_scale(d, -1)]
        return tighten(list(L) + add) if add else L
    def assign(self, B, L, asg):
        if not asg: return B, L
        red = {t for t, _ in asg}
        def uses(x): return any(y in red for y in walk(x) if isinstance(y, tuple))
        ren = {t: ('old', t) for t in red}
        L2 = []
        for e in L: L2.append(lin_of(subst(e, ren)) if uses(e) else e)
        B2 = set()
        keepb = []
        for f in B:
            keepb.append(subst(f, ren) if uses(f) else f)
        for t, val in asg:
            val = subst(val, ren) if uses(val) else val
            k = lin_const(val)
            isbool = isinstance(val, tuple) and val and (val[0] in ('icmp', 'fcmp', 'and', 'or', 'not'))
            if t[0] == 'it' or (not isbool and self.relevant(t)):
                d = lin_add(t, val, -1)
                if all(isinstance(u, tuple) for u, _ in d[2]) and not isinstance(val, tuple) or is_lin(lin_of(val)):
                    L2 += [d, lin_scale(d, -1)]
            if k in (0, 1) and self.boolish(t):
                B2.add(t if k else ('not', t))
            elif isinstance(val, tuple) and self.relevant(t):
                for f in list(keepb):
                    if f == val: B2.add(t)
                    elif f == ('not', val) or (isbool and f == self.v.neg(val)): B2.add(('not', t))
                    elif any(y == val for y in walk(f) if isinstance(y, tuple)) and not is_lin(val):
                        B2.add(subst(f, {val: t}))
        # drop facts on old names
        def old(x): return any(isinstance(y, tuple) and y and y[0] == 'old' for y in walk(x))
        # rename boolean facts through copies old -> new
        B2 |= {f for f in keepb if not old(f)}
        B2 = {f for f in B2 if not old(f)}
        L3 = tighten(L2)
        if L3 is None: return None
        if infeasible(L3): return None
        return frozenset(B2), project(L3, lambda t: old(t))
    def kill(self, B, L, pred):
        """forget everything about the terms satisfying pred"""
        def bad(x): return any(isinstance(y, tuple) and y and pred(y) for y in walk(x))
        B2 = frozenset(f for f in B if not bad(f))
        ts = {t for e in L for t, _ in e[2] if bad(t)}
        return B2, (project(L, lambda t: t in ts) if ts else L)
    # ---- fixpoint
    def run(self, q0):
        v = self.v; u = v.u
        L0 = tighten([x for e in self.init_facts for x in [e]]) or frozenset()
        ent = u.entry
        self.inn = {ent: {(q0, frozenset()): L0}}
        visits = {}
        from heapq import heappush, heappop
        order = {b: i for i, b in enumerate(IR.rpo(lambda n: self.succ[n], ent))}
        heap = [(0, ent)]; inq = {ent}
        self.before = {}     # id(ins) -> {(q,B): L}
        n = 0
        while heap:
            _, b = heappop(heap); inq.discard(b)
            n += 1
            if n > 20000: raise RuntimeError('abstract interpretation does not stabilise in ' + v.fn.dem)
            states = [(q, B, L) for (q, B), L in self.inn[b].items()]
            outn, outu = self.block(b, states)
            term = v.fn.blocks[b].instrs[-1]
            for s in self.succ[b]:
                src = outu if (term.op == 'invoke' and s == term.unwind and s != term.normal) else outn
                ns = [r for st in src for r in self.edge(b, s, st)]
                if self.merge(s, ns, visits) and s not in inq:
                    heappush(heap, (order[s], s)); inq.add(s)
        return self
    def merge(self, s, ns, visits):
        d = self.inn.setdefault(s, {})
        ch = False
        for q, B, L in ns:
            k = (q, B)
            if k not in d:
                # subsumed by a state with fewer facts?
                sub = False
                for (q2, B2), L2 in d.items():
                    if q2 == q and B2 <= B and all(entails(L, e) for e in L2): sub = True; break
                if sub: continue
                same = [x for x in d if x[0] == q]
                if len(same) >= self.maxdis:
                    # collapse
                    NB = B; NL = L
                    for x in same:
                        NB = NB & x[1]; NL = join_lin(NL, d[x])
                        del d[x]
                    d[(q, NB)] = NL; ch = True; continue
                d[k] = L; ch = True
            else:
                if d[k] == L: continue
                c = visits.get((s, k), 0) + 1; visits[(s, k)] = c
                if c > 5 and (c > 40 or self.v.noreturn or s in self.v.loops):
                    nl = frozenset(e for e in d[k] if entails(L, e))
                    if c < 15:
                        parts = {e[2] for e in d[k]}
                        nl |= frozenset(e for e in L if e[2] not in parts and entails(d[k], e))
                else: nl = join_lin(d[k], L)
                if nl != d[k]:
                    # changed only if weaker
                    if all(entails(nl, e) for e in d[k]): continue
                    d[k] = nl; ch = True
        return ch
    def block(self, b, states):
        v = self.v
        term = v.fn.blocks[b].instrs[-1]
        cur = states; unw = states
        for e in self.evs[b]:
            m = {}
            for q, B, L in cur:
                m[(q, B)] = join_lin(m[(q, B)], L) if (q, B) in m else L
            self.before[id(e.ins)] = m
            if e.ins is term and term.op == 'invoke':
                unw = []
                for q, B, L in cur:
                    for q2 in (self.exc(q, e) if self.exc else [q]): unw.append((q2, B, L))
            nxt = []
            for q, B, L in cur:
                rs = self.delta(q, e, (B, L))
                if rs is None: rs = [(q, [], [])]
                own = self.memory(e)
                if own: rs = [(r[0], r[1], (list(r[2]) if len(r) > 2 else []) + own) for r in rs]
                pred = self._killpred(e)
                if pred is not None:
                    keep = {t for r in rs for t, _ in (r[2] if len(r) > 2 else [])}
                    B, L = self.kill(B, L, (lambda y: pred(y) and y not in keep and ('2x', y) not in keep) if keep else pred)
                for r in rs:
                    q2, cs = r[0], r[1]
                    asg = r[2] if len(r) > 2 else []
                    S_ = [(B, L)]
                    if asg:
                        x = self.assign(B, L, asg); S_ = [x] if x else []
                    for c in cs: S_ = [y for s in S_ for y in self.assume(s, c)]
                    nxt += [(q2,) + s for s in S_]
            cur = list(dict.fromkeys(nxt))
        return cur, unw
    def memory(self, e):
        """assignments made by loads from and stores to tracked cells"""
        v = self.v
        if e.kind == 'load':
            ty = str(e.ins.ty)
            if ty == 'double': return [(('2x', ('flv', e.ins.res)), LIN(0, [(('2x', ('ld', e.args[0], ty)), 1)]))]
            return [(('lv', e.ins.res), ('ld', e.args[0], ty))]
        if e.kind == 'store' and e.ins.op == 'store':
            ty = str(e.ins.ops[0].ty)
            if v.tracked(e.args[0], ty):
                if ty == 'double':
                    x = v.twice(e.args[1])
                    return [] if x is None else [(('2x', ('ld', e.args[0], ty)), x)]
                return [(('ld', e.args[0], ty), e.args[1])]
        return []
    def _killpred(self, e):
        res = ('call', e.ins.res) if e.ins.op in ('call', 'invoke') and e.ins.res is not None else None
        kf = self.killf(e) if self.killf else default_kill(e)
        if res is None and kf is None: return None
        return lambda y: (res is not None and y == res) or (kf is not None and kf(y))

def cell_terms(e):
    t = ('ld', e.args[0], str(e.ins.ty))
    return [t, ('2x', t)]
def with_loads(v, evs):
    """insert an event for every load from a tracked cell"""
    from events import Ev
    out = {}
    for b, L in evs.items():
        by = {id(e.ins): e for e in L}; r = []
        for i in v.fn.blocks[b].instrs:
            if id(i) in by: r.append(by[id(i)])
            elif i.op == 'load' and hasattr(v, 'tracked'):
                a = v.canon(i.ops[0])
                if v.tracked(a, str(i.ty)): r.append(Ev(v, i, 'load', 'load', (a,)))
        out[b] = r
    return out

def root(x):
    """root object of an address"""
    if is_lin(x):
        for t, k in x[2]:
            if k == 1 and isinstance(t, tuple) and t and t[0] in ('p', 'al', 'g', 'ld', 'call', 'phi', 'old', 'new'): return t
        return x
    return x
def default_kill(e):
    """loads possibly changed by an event"""
    if e.kind == 'store':
        A = e.args[0]; r = root(A)
        def kf(y):
            if y[0] != 'ld': return False
            if y[1] == A: return True
            ry = root(y[1])
            if r[0] == 'al' or ry[0] == 'al': return r == ry and not distinct(y[1], A)
            if distinct(y[1], A): return False
            return True if ry == r else False
        return kf
    if e.kind == 'call' and e.name.startswith('llvm.mem'):
        r = root(e.args[0])
        return lambda y: y[0] == 'ld' and root(y[1]) == r
    if e.kind in ('ret', 'resume', 'unreachable', 'load'): return None
    # calls: objects passed by address may change
    rs = {root(a) for a in e.args if isinstance(a, tuple) and a}
    rs = {r for r in rs if isinstance(r, tuple) and r and r[0] in ('al',)}
    if not rs: return None
    return lambda y: y[0] == 'ld' and root(y[1]) in rs
def distinct(a, b):
    d = lin_add(a, b, -1)
    return d[2] == () and d[1] != 0
