"""Path-sensitive value analysis of one (mostly loop-free) function.

Every feasible combination of branch outcomes is followed through the control-flow graph with symbolic memory: a store
binds an address expression to a value expression, a load reads the binding back or yields the initial content ('ld', addr, ty).
Branch conditions become facts (boolean atoms and linear inequalities); contradictory combinations are dropped by syntactic and
Fourier-Motzkin reasoning.  A loop is entered once with everything it may change forgotten and left through its exits.
The result is a decision table: leaf states (return / throw) with facts, memory and trace of observed events."""
import re
import ir as IR, summary as S
from summary import LIN, lin_of, lin_add, lin_scale, lin_const, simp, is_lin, walk, mapx, show
from events import EvView, head
from absint import entails, infeasible, root
from compare import writes
from harness import Broken

class PView(EvView):
    def __init__(self, m, fn, nounwind=True):
        super().__init__(m, fn)
        if nounwind: self.u = IR.CFG(fn, unwind=False)
        if self.noreturn: self.loops = {}
    def canon_i(self, ins):
        op = ins.op
        if op == 'phi': return ('phi', ins.res)
        if op == 'load': return ('lv', ins.res)
        if op == 'select' and str(ins.ty) != 'i1': return ('sel', ins.res)
        if op == 'trunc' and str(ins.ty) == 'i1':
            return self.mkcmp('icmp', 'ne', self.canon(ins.ops[0]), LIN(0))
        return super().canon_i(ins)

    def mkcmp(self, op, pred, a, b):
        c = super().mkcmp(op, pred, a, b)
        if c[0] == 'icmp' and c[1] in ('eq', 'ne') and c[2][1] == 0 and len(c[2][2]) == 1:
            t, k = c[2][2][0]
            if isinstance(t, tuple) and t and t[0] == 'or' and len(t) == 3 and not any(isinstance(x, tuple) and x and x[0] in ('icmp', 'fcmp', 'not', 'ite') for x in t[1:]):
                return ('and' if pred == 'eq' else 'or',) + tuple(sorted((self.mkcmp('icmp', pred, x, LIN(0)) for x in t[1:]), key=repr))
        return c

SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'float': 4, 'double': 8, 'i128': 16}
def size(ty): return SIZES.get(str(ty), 8)
NEGV = None

class St:
    __slots__ = ('env', 'log', 'facts', 'trace', 'q', 'loops')
    def __init__(self, env=None, log=None, facts=frozenset(), trace=(), q=None, loops=frozenset()):
        self.env = env or {}; self.log = log; self.facts = facts; self.trace = trace; self.q = q; self.loops = loops
    def copy(self):
        return St(dict(self.env), self.log, self.facts, self.trace, self.q, self.loops)

class Leaf:
    def __init__(self, kind, st, val, ins, v): self.kind = kind; self.st = st; self.val = val; self.ins = ins; self.v = v
    def where(self): return self.v.m.where(self.ins)

class TooMany(Broken): pass

class Paths:
    def __init__(self, m, fn, event=None, irrelevant=None, pure=None, unwind=False, limit=4000, init=(), callwrites=None, view=None, q=None, keepall=False, assume_nonnull=True, exitnames=()):
        self.m = m; self.fn = fn; self.v = (view or PView)(m, fn, nounwind=not unwind)
        self.event = event; self.irr = irrelevant or (lambda c: False); self.pure = pure or (lambda n: False)
        self.unwind = unwind; self.limit = limit; self.callwrites = callwrites
        self.leaves = []; self.keepall = keepall; self.q0 = q
        self.initfacts = list(init)
        self.loops = self.v.loops
        self._uses()
        self.run()
    # ------------------------------------------------ liveness of path-dependent values
    def _uses(self):
        v = self.v
        succ = v.u.succ
        use = {}
        deps = {}
        def leafs(o): return {t for t in walk(v.canon(o)) if isinstance(t, tuple) and len(t) == 2 and t[0] in ('phi', 'lv', 'sel', 'call')} if o is not None else set()
        for b in succ:
            s = set()
            for i in v.fn.blocks[b].instrs:
                ops = list(i.ops) if i.ops else []
                if i.op == 'phi': continue
                if i.op in ('br', 'switch', 'store', 'load', 'call', 'invoke', 'ret', 'select', 'resume', 'atomicrmw', 'cmpxchg'):
                    for o in ops:
                        if hasattr(o, 'kind'): s |= leafs(o)
                    if i.op in ('call', 'invoke') and i.callee is not None and i.callee.kind == 'local': s |= leafs(i.callee)
            use[b] = s
        live = {b: set(use[b]) for b in succ}
        # phi operands are used at the end of predecessors
        for b in succ:
            for i in v.fn.blocks[b].instrs:
                if i.op == 'phi':
                    for x, p in i.phis:
                        if p in live: live[p] |= leafs(x)
        ch = True
        while ch:
            ch = False
            for b in succ:
                for s in succ[b]:
                    n = live[s] - live[b]
                    if n: live[b] |= n; ch = True
        self.live = live
    # ------------------------------------------------ values
    def ev(self, x, st, memo=None):
        if not isinstance(x, tuple) or not x: return x
        if memo is None: memo = {}
        if x in memo: return memo[x]
        if len(x) == 2 and x[0] in ('phi', 'lv', 'sel', 'call') and x in st.env: r = st.env[x]
        elif is_lin(x):
            r = LIN(x[1])
            for t, k in x[2]: r = lin_add(r, lin_of(self.ev(t, st, memo)), k)
            r = simp(r)
        else:
            r = self.renorm(mapx(x, lambda y: self.ev(y, st, memo) if isinstance(y, tuple) else y))
        memo[x] = r
        return r
    def renorm(self, x):
        v = self.v
        if x[0] == 'icmp':
            d = x[2]
            if not d[2]:
                c = d[1]; p = x[1]
                return LIN(int({'eq': c == 0, 'ne': c != 0}.get(p, c <= 0 if p[1:] == 'le' else c >= 0)))
            if x[1] in ('eq', 'ne') and len(d[2]) == 1 and nonnull(d, self.fn): return LIN(0 if x[1] == 'eq' else 1)
            if d[1] == 0 and len(d[2]) == 1 and x[1] in ('eq', 'ne') and isinstance(d[2][0][0], tuple) and d[2][0][0][0] in ('icmp', 'fcmp', 'and', 'or', 'not', 'ite'):
                return d[2][0][0] if x[1] == 'ne' else v.neg(d[2][0][0])
            return v.mkcmp('icmp', x[1], d, LIN(0))
        if x[0] == 'div' and len(x) == 3 and isinstance(x[2], int):
            a = lin_of(x[1])
            if x[2] and a[1] % x[2] == 0 and all(k % x[2] == 0 for _, k in a[2]): return simp(LIN(a[1]//x[2], [(t, k//x[2]) for t, k in a[2]]))
            return x
        if x[0] == 'fcmp': return v.mkcmp('fcmp', x[1], x[2], x[3])
        if x[0] == 'fprod':
            fs = [y[2] if isinstance(y, tuple) and y and y[0] == 'fprod' and y[1] == 1.0 else (y,) for y in x[2]]
            return ('fprod', x[1], tuple(sorted((z for y in fs for z in y), key=repr)))
        if x[0] == 'fsum': return ('fsum', tuple(sorted(x[1], key=repr)))
        if x[0] in ('fptosi', 'fptoui') and isinstance(x[1], tuple) and x[1][0] == 'f' and len(x) == 2 and abs(x[1][1]) < 2**31: return LIN(int(x[1][1]))
        if x[0] in ('sitofp', 'uitofp') and len(x) == 2 and lin_const(x[1]) is not None: return ('f', float(lin_const(x[1])))
        if x[0] == 'not': return v.neg(x[1]) if lin_const(x[1]) is None else LIN(1 - lin_const(x[1]))
        if x[0] in ('and', 'or') :
            xs = [y for y in x[1:]]
            ks = [lin_const(y) for y in xs]
            if x[0] == 'and' and 0 in ks: return LIN(0)
            bools = [y for y, k in zip(xs, ks) if k is None]
            if any(isinstance(y, tuple) and y[0] in ('icmp', 'fcmp', 'and', 'or', 'not') for y in bools):
                if x[0] == 'or' and 1 in ks: return LIN(1)
                if len(bools) == 1: return bools[0]
            return (x[0],) + tuple(xs)
        if x[0] == 'ite':
            k = lin_const(x[1])
            if k is not None: return x[2] if k else x[3]
            return v._ite(x[1], x[2], x[3])
        return x
    # ------------------------------------------------ memory
    def load(self, st, a, ty):
        ty = str(ty)
        log = st.log
        while log is not None:
            e, log = log
            if e[0] == 'st':
                if e[1] == a and e[2] == ty: return e[3]
                d = lin_add(lin_of(a), lin_of(e[1]), -1)
                if d[2] == ():
                    o = d[1]
                    if -size(ty) < o < size(e[2]):
                        if o == 0 and size(ty) == size(e[2]): return e[3]
                        return ('ldv', a, ty, e[4])
                elif root(a) == root(e[1]): return ('ldv', a, ty, e[4])
            elif e[0] == 'cp':
                o = lin_add(lin_of(a), lin_of(e[1]), -1)
                n = e[2]
                if o[2] == () and n is not None:
                    if 0 <= o[1] and o[1] + size(ty) <= n:
                        s2 = St(log=log)
                        return self.load(s2, simp(lin_add(lin_of(e[3]), LIN(o[1]))), ty)
                    if not (o[1] >= n or o[1] + size(ty) <= 0): return ('ldv', a, ty, e[4])
                elif root(a) == root(e[1]): return ('ldv', a, ty, e[4])
            elif e[0] == 'set':
                o = lin_add(lin_of(a), lin_of(e[1]), -1)
                if o[2] == () and e[2] is not None:
                    if 0 <= o[1] and o[1] + size(ty) <= e[2]:
                        if e[3] == 0: return ('f', 0.0) if ty in ('double', 'float') else LIN(0)
                        return ('ldv', a, ty, e[4])
                    if not (o[1] >= e[2] or o[1] + size(ty) <= 0): return ('ldv', a, ty, e[4])
                elif root(a) == root(e[1]): return ('ldv', a, ty, e[4])
            elif e[0] == 'kill':
                if e[1](a): return ('ldv', a, ty, e[2])
        return ('ld', a, ty)
    def store(self, st, a, ty, x, site):
        st.log = (('st', a, str(ty), x, site), self._drop(st.log, a, str(ty)))
    def _drop(self, log, a, ty):
        """remove an older binding of exactly this cell directly visible"""
        keep = []; cur = log; n = 0
        while cur is not None and n < 40:
            e, nx = cur
            if e[0] == 'st' and e[1] == a and e[2] == ty:
                r = nx
                for k in reversed(keep): r = (k, r)
                return r
            if e[0] != 'st': break
            keep.append(e); cur = nx; n += 1
        return log
    # ------------------------------------------------ facts
    def lins(self, facts):
        memo = self.__dict__.setdefault('_lins', {})
        r = memo.get(facts) if isinstance(facts, frozenset) else None
        if r is None:
            r = self._linear(facts)
            if isinstance(facts, frozenset): memo[facts] = r
        return list(r)
    def _linear(self, facts):
        out = []
        nes = [f[2] for f in facts if f[0] == 'icmp' and f[1] == 'ne']
        for f in facts:
            if f[0] == 'icmp':
                p, d = f[1], f[2]
                if p == 'eq': out += [d, lin_scale(d, -1)]
                elif p[1:] == 'le': out.append(d)
                elif p[1:] == 'ge': out.append(lin_scale(d, -1))
        # integers: d <= 0 and d != 0 means d <= -1
        bounded = {frozenset(t for t, _ in d[2]) for d in out}
        nes = [d for d in nes if any(b <= {t for t, _ in d[2]} for b in bounded)]
        more = True
        while more and nes:
            more = False
            for d in list(nes):
                if entails(out, d): out = out + [lin_add(LIN(1), d)]
                elif entails(out, lin_scale(d, -1)): out = out + [lin_add(LIN(1), d, -1)]
                else: continue
                nes.remove(d); more = True
        return out
    def decide(self, facts, c):
        """True / False / None"""
        k = lin_const(c)
        if k is not None: return bool(k)
        if c in facts: return True
        n = self.v.neg(c)
        if n in facts: return False
        h = c[0]
        if h == 'not':
            r = self.decide(facts, c[1]); return None if r is None else not r
        if h == 'and':
            rs = [self.decide(facts, x) for x in c[1:]]
            return False if False in rs else True if all(r is True for r in rs) else None
        if h == 'or':
            rs = [self.decide(facts, x) for x in c[1:]]
            return True if True in rs else False if all(r is False for r in rs) else None
        if h == 'ite':
            r = self.decide(facts, c[1])
            if r is not None: return self.decide(facts, c[2] if r else c[3])
            a, b = self.decide(facts, c[2]), self.decide(facts, c[3])
            return a if a is not None and a == b else None
        if h == 'icmp':
            p, d = c[1], c[2]
            L = self.lins(facts)
            le = lambda: entails(L, d); ge = lambda: entails(L, lin_scale(d, -1))
            if p[1:] == 'le':
                if le(): return True
                if entails(L, lin_add(LIN(1), d, -1)): return False
            elif p[1:] == 'ge':
                if ge(): return True
                if entails(L, lin_add(LIN(1), d)): return False
            else:
                lt = lambda: entails(L, lin_add(d, LIN(1))); gt = lambda: entails(L, lin_add(LIN(1), d, -1))
                if lt() or gt(): return p == 'ne'
                if le() and ge(): return p == 'eq'
        if h == 'fcmp' and c[1] in ('oeq', 'une', 'olt', 'ogt', 'ole', 'oge', 'ult', 'ugt', 'ule', 'uge'):
            r = fimplied(facts, c)
            if r is not None: return r
        return None
    def assume(self, facts, c):
        """list of fact sets covering facts & c"""
        r = self.decide(facts, c)
        if r is True: return [facts]
        if r is False: return []
        h = c[0]; neg = self.v.neg
        if h == 'and':
            out = [facts]
            for x in c[1:]: out = [g for f in out for g in self.assume(f, x)]
            return out
        if h == 'or':
            out = []; cur = [facts]
            for x in c[1:]:
                out += [g for f in cur for g in self.assume(f, x)]
                cur = [g for f in cur for g in self.assume(f, neg(x))]
            return out
        if h == 'ite':
            return [g for f in self.assume(facts, c[1]) for g in self.assume(f, c[2])] + [g for f in self.assume(facts, neg(c[1])) for g in self.assume(f, c[3])]
        if h == 'not' and isinstance(c[1], tuple) and c[1] and c[1][0] == 'ite':
            x = c[1]; return self.assume(facts, ('ite', x[1], neg(x[2]), neg(x[3])))
        if self.irr(c): return [facts]
        return [facts | {c}]
    # ------------------------------------------------ exploration
    def run(self):
        v = self.v
        st = St(q=self.q0)
        st.facts = frozenset(self.initfacts)
        work = [(v.u.entry, None, st)]
        seen = set(); n = 0
        self.throwblocks = set(v.u.succ) - v.keep if not self.unwind else set()
        while work:
            b, pred, st = work.pop()
            n += 1
            if n > self.limit: raise TooMany('too many paths in ' + v.fn.dem)
            for s, nst in self.block(b, pred, st):
                k = self.key(s, b, nst)
                if k in seen: continue
                seen.add(k)
                work.append((s, b, nst))
    def key(self, s, b, st):
        phis = any(i.op == 'phi' for i in self.v.fn.blocks[s].instrs)
        lv = self.live[s] | ({t for i in self.v.fn.blocks[s].instrs if i.op == 'phi' for x, p in i.phis if p == b for t in walk(self.v.canon(x)) if isinstance(t, tuple) and len(t) == 2 and t[0] in ('phi', 'lv', 'sel', 'call')} if phis else set())
        env = frozenset((t, x) for t, x in st.env.items() if t in lv)
        return (s, b if phis or s in self.loops else None, env, st.log, st.facts, st.trace, st.q, st.loops)
    def leaf(self, kind, st, val, ins): self.leaves.append(Leaf(kind, st, val, ins, self.v))
    def block(self, b, pred, st):
        v = self.v
        st = st.copy()
        if b in self.throwblocks:
            self.leaf('throw', st, exctype(v, b), v.fn.blocks[b].instrs[0]); return []
        st.loops = frozenset(h for h in st.loops if b in self.loops[h])
        if b in self.loops:
            if b in st.loops and pred in self.loops[b]: return []
            st.loops = st.loops | {b}
            self.havoc(b, st)
        new = {}
        ins = v.fn.blocks[b].instrs
        if not (b in self.loops):
            for i in ins:
                if i.op != 'phi': break
                for x, p in i.phis:
                    if p == pred: new[('phi', i.res)] = self.ev(v.canon(x), st)
            st.env.update(new)
        else:
            for i in ins:
                if i.op != 'phi': break
                st.env.pop(('phi', i.res), None)
        states = [st]
        for i in ins:
            if i.op == 'phi': continue
            nxt = []
            for s in states: nxt += self.exec(i, s)
            states = nxt
            if not states: return []
        t = ins[-1]
        out = []
        for s in states:
            if t.op == 'ret':
                self.leaf('ret', s, self.ev(v.canon(t.ops[0]), s) if t.ops else None, t)
            elif t.op == 'resume': self.leaf('unwind', s, None, t)
            elif t.op == 'unreachable': self.leaf('throw', s, None, t)
            elif t.op == 'br' and len(t.targets) == 2 and t.targets[0] != t.targets[1]:
                c = self.ev(v.canon(t.ops[0]), s)
                for tgt, cc in ((t.targets[0], c), (t.targets[1], v.neg(c))):
                    for f in self.assume(s.facts, cc):
                        n = s.copy(); n.facts = f; out.append((tgt, n))
            elif t.op == 'switch':
                x = self.ev(v.canon(t.ops[0]), s)
                for val, tgt in t.cases:
                    for f in self.assume(s.facts, self.renorm(('icmp', 'eq', lin_add(lin_of(x), LIN(val), -1)))):
                        n = s.copy(); n.facts = f; out.append((tgt, n))
                fs = [s.facts]
                for val, tgt in t.cases:
                    fs = [g for f in fs for g in self.assume(f, self.renorm(('icmp', 'ne', lin_add(lin_of(x), LIN(val), -1))))]
                for f in fs:
                    n = s.copy(); n.facts = f; out.append((t.targets[0], n))
            elif t.op == 'invoke':
                out.append((t.normal, s))
                if self.unwind and getattr(s, 'env', None) is not None: pass
            else:
                for tgt in v.u.succ[b]: out.append((tgt, s))
        if t.op == 'invoke' and self.unwind:
            # state before the call, memory possibly changed by it
            out += [(t.unwind, s) for s in self._unw]
        return [(s, n) for s, n in out if s in v.u.succ]
    def havoc(self, h, st):
        v = self.v
        addrs = []; preds = []
        for b in self.loops[h]:
            for i in v.fn.blocks[b].instrs:
                if i.op == 'store': addrs.append(v.canon(i.ops[1]))
                elif i.op in ('call', 'invoke') and not v.ignorable(i):
                    p = self.killpred(i, st, loop=h)
                    if p: preds.append(p)
                if i.res: 
                    for k in ('phi', 'lv', 'sel', 'call'): st.env.pop((k, i.res), None)
        rs = set()
        for a in addrs:
            a = self.ev(a, st)
            if any(isinstance(t, tuple) and len(t) == 2 and t[0] in ('phi', 'lv', 'sel', 'call') for t in walk(a)): rs.add(root(a))
            else: rs.add(('exact', a))
        site = ('loop', h)
        if addrs or preds:
            def pred(a, rs=frozenset(rs), preds=tuple(preds)):
                return ('exact', a) in rs or root(a) in rs or any(p(a) for p in preds)
            st.log = (('kill', pred, site), st.log)
        def bad(x): return any(isinstance(y, tuple) and len(y) == 2 and y[0] in ('phi', 'lv', 'sel', 'call') and v.fn.defs.get(y[1]) is not None and v.fn.defs[y[1]].block.name in self.loops[h] for y in walk(x))
        st.facts = frozenset(f for f in st.facts if not bad(f))
    def killpred(self, i, st, loop=None):
        v = self.v
        nm = v.callname(i)
        if nm.startswith('llvm.') and not nm.startswith('llvm.mem'): return None
        if self.pure(nm): return None
        args = [self.ev(v.canon(o), st) for o in i.ops]
        w = None
        if self.callwrites: w = self.callwrites(nm, args)
        if w is None: w = writes(nm) if nm != '*indirect' else None
        ps = [(root(a), lin_add(lin_of(a), lin_of(root(a)), -1)) for k, a in enumerate(args) if isinstance(a, tuple) and a and (w is None or k in w) and lin_const(a) is None]
        ps = [(r, o[1] if o[2] == () else None) for r, o in ps if isinstance(r, tuple)]
        ps = [(r, o) for r, o in ps if r[0] in ('p', 'al', 'g', 'ld', 'ldv', 'call', 'phi', 'lv', 'sel', 'new')]
        if not ps: return None
        def pred(a):
            for x in chain(a):
                r = root(x); o = lin_add(lin_of(x), lin_of(r), -1)
                for pr, po in ps:
                    if r == pr and (po is None or o[2] != () or o[1] >= po): return True
            return False
        return pred
    def exec(self, i, st):
        v = self.v; op = i.op
        if op == 'load':
            a = self.ev(v.canon(i.ops[0]), st)
            st.env[('lv', i.res)] = self.load(st, a, i.ty)
        elif op == 'store':
            a = self.ev(v.canon(i.ops[1]), st); x = self.ev(v.canon(i.ops[0]), st)
            if self.event:
                r = self.event(self, st, i, 'store', (a, x))
                if r is not None: return r
            self.store(st, a, i.ops[0].ty, x, (i.block.name, i.idx))
        elif op == 'select' and str(i.ty) != 'i1':
            c = self.ev(v.canon(i.ops[0]), st); out = []
            for o, cc in ((i.ops[1], c), (i.ops[2], v.neg(c))):
                for f in self.assume(st.facts, cc):
                    n = st.copy(); n.facts = f; n.env[('sel', i.res)] = self.ev(v.canon(o), n); out.append(n)
            return out
        elif op in ('call', 'invoke'):
            if op == 'invoke': self._unw = []
            if v.ignorable(i): return [st]
            nm = v.callname(i)
            if nm.startswith('llvm.') and not nm.startswith('llvm.mem'): return [st]
            args = tuple(self.ev(v.canon(o), st) for o in i.ops)
            callee = self.ev(v.canon(i.callee), st) if nm == '*indirect' else None
            if i.res is not None:
                st.env[('call', i.res)] = ('call', i.res) if not st.loops or True else None
            res = [st]
            throws = self.unwind and v.m.maythrow(i)
            if self.event:
                r = self.event(self, st, i, nm, args, callee) if callee is not None else self.event(self, st, i, nm, args)
                if r is not None: res = r
            site = (i.block.name, i.idx)
            if nm.startswith('llvm.mem'):
                n = lin_const(args[2])
                for s in res:
                    if nm.startswith('llvm.memset'): s.log = (('set', args[0], n, lin_const(args[1]), site), s.log)
                    else: s.log = (('cp', args[0], n, args[1], site), s.log)
                return res
            p = self.killpred(i, st)
            if throws and op == 'call':
                for s in res:
                    n = s.copy()
                    if p is not None: n.log = (('kill', p, site), n.log)
                    self.leaf('unwind', n, None, i)
            if op == 'invoke' and throws: self._unw += [s.copy() for s in res]
            if p is not None:
                for s in res: s.log = (('kill', p, site), s.log)
                if op == 'invoke' and self.unwind:
                    for s in self._unw: s.log = (('kill', p, site), s.log)
            return res
        return [st]

def chain(a):
    """an address and the addresses it was loaded through"""
    yield a
    for t in walk(a):
        if isinstance(t, tuple) and t and t[0] in ('ld', 'ldv') and len(t) >= 3: yield t[1]
def nonnull(d, fn):
    """eq 0 is impossible: address of a parameter object, local or global"""
    t, k = d[2][0]
    if isinstance(t, tuple) and t and t[0] in ('al', 'g'): return True
    return isinstance(t, tuple) and t and t[0] == 'p' and d[1] != 0 and abs(k) == 1 and t[1] < len(fn.params) and str(fn.params[t[1]][1]) == 'ptr'
def exctype(v, b):
    """type thrown on a path that never returns"""
    seen = {b}; st = [b]
    cfg = IR.CFG(v.fn, unwind=False)
    while st:
        x = st.pop(0)
        for i in v.fn.blocks[x].instrs:
            if i.op in ('call', 'invoke'):
                nm = v.callname(i)
                if nm == '__cxa_throw': 
                    t = i.ops[1]
                    return v.m.dem.get(t.v, str(t.v)).replace('typeinfo for ', '')
                if nm.startswith('std::__throw'): return nm
                if nm in ('abort', '__assert_fail', 'std::terminate()'): return nm
        for s in cfg.succ.get(x, ()):
            if s not in seen: seen.add(s); st.append(s)
    return None
def fimplied(facts, c):
    """floating comparisons implied by equality facts with the same operands"""
    return None

# ------------------------------------------------------------------ decision tables
def consistent(P, a, b):
    """facts of two leaves (of different functions) can hold together"""
    f = frozenset(a)
    for c in b:
        r = P.decide(f, c)
        if r is False: return None
        f = f | {c}
    L = P.lins(f)
    nes = [c[2] for c in f if c[0] == 'icmp' and c[1] == 'ne']
    ch = True
    while ch and nes:
        ch = False
        for d in list(nes):
            if entails(L, lin_scale(d, -1)): L = L + [lin_add(LIN(1), d, -1)]
            elif entails(L, d): L = L + [lin_add(LIN(1), d)]
            else: continue
            nes.remove(d); ch = True
    if infeasible(L): return None
    return f
def atoms(x):
    if not isinstance(x, tuple) or not x: return
    if x[0] in ('icmp', 'fcmp'): yield x; return
    if x[0] == 'ite':
        yield from atoms(x[1])
        for y in x[2:]: yield from atoms(y)
    elif is_lin(x):
        for t, _ in x[2]: yield from atoms(t)
    else:
        for y in x:
            if isinstance(y, tuple): yield from atoms(y)
def simplify(P, x, facts):
    if not isinstance(x, tuple) or not x: return x
    if x[0] in ('icmp', 'fcmp', 'not', 'and', 'or'):
        r = P.decide(facts, x)
        if r is not None: return LIN(int(r))
    if x[0] == 'ite':
        r = P.decide(facts, x[1])
        if r is not None: return simplify(P, x[2] if r else x[3], facts)
    return P.renorm(mapx(x, lambda y: simplify(P, y, facts) if isinstance(y, tuple) else y)) if not is_lin(x) else mapx(x, lambda y: simplify(P, y, facts))
def words(x):
    """a word loaded as pointer or as integer"""
    if not isinstance(x, tuple) or not x: return x
    if x[0] == 'ld' and x[2] == 'i64': return ('ld', words(x[1]), 'ptr') + x[3:]
    return tuple(words(e) if isinstance(e, tuple) else e for e in x)
def equal_under(P, facts, x, y, depth=0):
    if x == y: return True
    x = simplify(P, x, facts); y = simplify(P, y, facts)
    if x == y or words(x) == words(y): return True
    if is_lin(lin_of(x)) and is_lin(lin_of(y)) and x is not None and y is not None:
        d = lin_add(lin_of(x), lin_of(y), -1)
        if all(isinstance(t, tuple) and t[0] not in ('f', 'fsum', 'fprod', 'icmp', 'fcmp') for t, _ in d[2]):
            L = P.lins(facts)
            if entails(L, d) and entails(L, lin_scale(d, -1)): return True
    if depth > 6: return False
    for a in list(atoms(x)) + list(atoms(y)):
        if P.decide(facts, a) is None:
            return all(equal_under(P, f, x, y, depth+1) for c in (a, P.v.neg(a)) for f in P.assume(facts, c))
    return False

def same_table(A, B, cells, events=True, ret=True, ren=None, unordered=False):
    """A: Paths of the code, B: Paths of the specification.  cells: list of (name, addr, ty) compared at return.
    Returns list of (text, leaf of A)."""
    bad = []
    for la in A.leaves:
        hit = False
        for lb in B.leaves:
            f = consistent(A, la.st.facts, lb.st.facts)
            if f is None: continue
            hit = True
            ctx = 'when ' + (' and '.join(sorted(show(c)[:120] for c in f)) or 'always')
            if la.kind != lb.kind:
                bad.append(('%s: the code %s, prescribed: %s' % (ctx, verb(la), verb(lb)), la)); continue
            if callable(events):
                t = events(A, B, f, la, lb)
                if t: bad.append(('%s: %s' % (ctx, t), la))
            elif events:
                ta, tb = la.st.trace, lb.st.trace
                if unordered: ta, tb = sorted(ta, key=repr), sorted(tb, key=repr)
                if len(ta) != len(tb) or not all(sameev(A, f, x, y) for x, y in zip(ta, tb)):
                    bad.append(('%s: performs %s, prescribed %s' % (ctx, [showev(x) for x in ta], [showev(x) for x in tb]), la))
            if la.kind == 'throw': continue
            if ret and lb.val is not None and not equal_under(A, f, la.val, lb.val):
                bad.append(('%s: returns %s, prescribed %s' % (ctx, show(la.val)[:200], show(lb.val)[:200]), la))
            for nm, a, ty in cells:
                aa = A_addr(A, la, a); ba = A_addr(B, lb, a)
                x = A.load(la.st, aa, ty); y = B.load(lb.st, ba, ty)
                if not equal_under(A, f, x, y):
                    bad.append(('%s: leaves %s = %s, prescribed %s' % (ctx, nm, show(x)[:200], show(y)[:200]), la))
        if not hit: bad.append(('no prescribed behaviour for: ' + ' and '.join(show(c) for c in la.st.facts), la))
    return bad
def A_addr(P, leaf, a): return a(P, leaf) if callable(a) else a
def verb(l): return {'ret': 'returns', 'throw': 'throws %s' % (l.val or ''), 'unwind': 'is left by an exception'}[l.kind]
def sameev(P, f, x, y):
    return x[0] == y[0] and len(x) == len(y) and all(equal_under(P, f, a, b) if isinstance(a, tuple) or isinstance(b, tuple) else a == b for a, b in zip(x[1:], y[1:]))
def showev(x): return '%s(%s)' % (x[0], ', '.join(show(a) if isinstance(a, tuple) else str(a) for a in x[1:]))
