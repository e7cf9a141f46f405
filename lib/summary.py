"""Effect summaries of fully inlined functions.

For one LLVM function the summary is the multiset of *effects* it performs on its normal (non-throwing) paths:
calls to opaque operations and stores.  Every effect carries the canonical form of its operands, the nest of
loops around it (each loop reduced to its trip count), and the conditions under which it runs.  Canonical forms
are built by a forward value analysis over SSA: integers and pointers become linear forms over parameters, loads
and iteration counters; induction variables become start+step*iteration; loop-carried floats become folds.
Two ways of writing the same loop therefore get the same summary.
"""
from functools import cmp_to_key
from math import gcd
import ir as IR
import re

class Unsupported(Exception):
    pass

def LIN(c, terms=()):
    """terms: dict or iterable of (term,coef)"""
    d = {}
    for t, k in (terms.items() if isinstance(terms, dict) else terms):
        d[t] = d.get(t, 0) + k
    d = {t: k for t, k in d.items() if k != 0}
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))

def is_lin(x): return isinstance(x, tuple) and len(x) == 3 and x[0] == 'lin'
def lin_of(x):
    if is_lin(x): return x
    return ('lin', 0, ((x, 1),))
def lin_add(a, b, kb=1):
    a = lin_of(a); b = lin_of(b)
    d = dict(a[2])
    for t, k in b[2]: d[t] = d.get(t, 0) + kb*k
    return LIN(a[1] + kb*b[1], d)
def lin_scale(a, k):
    a = lin_of(a)
    return LIN(a[1]*k, [(t, c*k) for t, c in a[2]])
def lin_const(x):
    if is_lin(x) and not x[2]: return x[1]
    return None
def simp(x):
    """collapse 1*term"""
    if is_lin(x) and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1: return x[2][0][0]
    return x

def subst(x, m):
    """substitute terms (dict term->expr) in an expression, renormalising"""
    if not isinstance(x, tuple): return x
    if x in m: return m[x]
    if is_lin(x):
        r = LIN(x[1])
        for t, k in x[2]:
            r = lin_add(r, lin_of(subst(t, m)), k)
        return simp(r) if r[2] else r
    if x and x[0] == 'icmp': return ('icmp', x[1], lin_of(subst(x[2], m)))
    r = tuple(subst(y, m) if isinstance(y, tuple) else y for y in x)
    if r and r[0] == 'fprod': return (r[0], r[1], tuple(sorted(r[2], key=repr)))
    if r and r[0] in ('fsum', 'prod') and len(r) == 2 and isinstance(r[1], tuple): return (r[0], tuple(sorted(r[1], key=repr)))
    return r

def walk(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple): yield from walk(y)

MASK = {'i64': 1 << 64, 'i32': 1 << 32}

PURE_BIN = {'add','sub','mul','shl','and','or','xor','udiv','sdiv','urem','srem','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}

class FnView:
    def __init__(self, mod, fn, equiv=None):
        self.m = mod; self.fn = fn; self.equiv = equiv or {}
        self.full = IR.CFG(fn, unwind=False)
        # keep blocks from which a return is reachable
        ret = [b for b in self.full.succ if fn.blocks[b].instrs[-1].op == 'ret']
        keep = set(); st = list(ret)
        while st:
            x = st.pop()
            if x in keep: continue
            keep.add(x); st.extend(self.full.pred[x])
        self.keep = keep
        self.cfg = IR.CFG(fn, unwind=False)
        c = self.cfg
        c.succ = {b: [s for s in ss if s in keep] for b, ss in c.succ.items() if b in keep}
        c.pred = {b: [p for p in ps if p in keep] for b, ps in c.pred.items() if b in keep}
        self.noreturn = not keep
        if not keep: return
        c.idom, c.num = IR.dominators(list(c.succ), lambda n: c.succ[n], lambda n: c.pred[n], c.entry)
        c._loops = None; c._pd = None
        self.loops = c.loops()
        self.parent = {}
        for h, body in self.loops.items():
            best = None
            for g, gb in self.loops.items():
                if g != h and h in gb and (best is None or len(gb) < len(self.loops[best])): best = g
            self.parent[h] = best
        self.inner = c.innermost_loop()
        self.cd = c.control_deps()
        self.memo = {}; self.active = {}
        self.tcmemo = {}
        self.params = {p[0]: i for i, p in enumerate(fn.params)}
        self.prune = self._prunable()

    def loop_stack(self, block):
        h = self.inner.get(block); out = []
        while h is not None:
            out.append(h); h = self.parent[h]
        out.reverse(); return out

    # ------------------------------------------------------------ values
    def canon(self, v):
        if v.kind == 'const':
            if isinstance(v.v, int):
                return LIN(v.v)
            if isinstance(v.v, float): return ('f', v.v)
            return ('c', str(v.v))
        if v.kind == 'global': return ('g', v.v)
        if v.kind == 'expr':
            if v.v == 'getelementptr':
                return self._gep(v.x[0], v.x[1])
            return ('cexpr', v.v) + tuple(self.canon(a) for a in v.x[1])
        if v.kind == 'meta': return ('meta',)
        if v.v in self.params and v.v not in self.fn.defs:
            return ('p', self.params[v.v])
        return self.canon_i(self.fn.defs[v.v])

    def canon_i(self, ins):
        k = ins.res
        if k in self.memo: return self.memo[k]
        if k in self.active: return self.active[k]
        r = self._canon(ins)
        # only memoise when no enclosing phi is being resolved
        if not self.active or not any(t[0] in ('phivar',) for t in walk(r) if isinstance(t, tuple) and t and isinstance(t[0], str)):
            self.memo[k] = r
        return r

    def _gep(self, ty, ops):
        r = lin_of(self.canon(ops[0]))
        for j, o in enumerate(ops[1:]):
            if j == 0:
                r = lin_add(r, lin_of(self.canon(o)), self.m.sizeof(ty)); cur = ty
            else:
                while cur[0] == 'named': cur = self.m.types[cur[1]]
                if cur[0] == 'arr' or cur[0] == 'vec':
                    cur = cur[2]
                    r = lin_add(r, lin_of(self.canon(o)), self.m.sizeof(cur))
                else:
                    off, cur = self.m.field_off(cur, o.v)
                    r = lin_add(r, LIN(off))
        return simp(r)

    def _canon(self, ins):
        op = ins.op
        if op in ('add','sub','mul','shl'):
            a, b = (self.canon(o) for o in ins.ops)
            if ins.ty in ('i1','i8'): return (op, a, b)
            if op == 'add': return simp(lin_add(a, b))
            if op == 'sub': return simp(lin_add(a, b, -1))
            ca, cb = lin_const(a), lin_const(b)
            if op == 'mul':
                if cb is not None: return simp(lin_scale(a, cb))
                if ca is not None: return simp(lin_scale(b, ca))
                return self._mul(a, b)
            if cb is not None: return simp(lin_scale(a, 1 << cb))
            return ('shl', a, b)
        if op in ('sdiv','udiv','ashr','lshr'):
            a, b = (self.canon(o) for o in ins.ops)
            d = lin_const(b)
            if d is not None:
                if op in ('ashr','lshr'): d = 1 << d
                a = lin_of(a)
                if op == 'sdiv' and d < 0: a, d = LIN(-a[1], [(t, -k) for t, k in a[2]]), -d
                if d and a[1] % d == 0 and all(k % d == 0 for _, k in a[2]):
                    return simp(LIN(a[1]//d, [(t, k//d) for t, k in a[2]]))
                return ('div', a, d)
            return (op, a, b)
        if op in ('fadd','fsub'):
            a, b = (self.canon(o) for o in ins.ops)
            if op == 'fsub': b = self._fneg(b)
            parts = []
            for x in (a, b):
                if isinstance(x, tuple) and x[0] == 'fsum': parts += list(x[1])
                else: parts.append(x)
            parts = [x for x in parts if x not in (('f', 0.0), ('f', -0.0))]
            if not parts: return ('f', 0.0)
            if len(parts) == 1: return parts[0]
            return ('fsum', tuple(sorted(parts, key=repr)))
        if op == 'fmul':
            a, b = (self.canon(o) for o in ins.ops)
            return self._fprod(a, b)
        if op == 'fneg': return self._fneg(self.canon(ins.ops[0]))
        if op in ('and','or','xor','fdiv','frem','urem','srem'):
            a, b = (self.canon(o) for o in ins.ops)
            if op == 'xor' and ins.ty == 'i1' and lin_const(b) in (1, -1):
                return self.neg(a)
            if op in ('and','or','xor'):
                a, b = sorted((a, b), key=repr)
            return (op, a, b)
        if op in ('zext','sext','bitcast','ptrtoint','inttoptr','freeze','addrspacecast'):
            return self.canon(ins.ops[0])
        if op == 'trunc':
            return ('trunc', ins.ty, self.canon(ins.ops[0]))
        if op in IR.CAST: return (op, self.canon(ins.ops[0]))
        if op == 'getelementptr': return self._gep(ins.gepty, ins.ops)
        if op == 'alloca': return ('al', ins.res)
        if op == 'load':
            r = ('ld', self.canon(ins.ops[0]), str(ins.ty))
            return self.equiv.get(r, r)
        if op == 'icmp' or op == 'fcmp': return self._cmp(ins)
        if op == 'select':
            c = self.canon(ins.ops[0]); a = self.canon(ins.ops[1]); b = self.canon(ins.ops[2])
            if a == b: return a
            return self._ite(c, a, b)
        if op in ('call','invoke'):
            nm = self.callname(ins)
            if nm.startswith('llvm.'):
                base = nm.split('.')[1]
                args = tuple(self.canon(o) for o in ins.ops)
                if base in ('umin','umax','smin','smax','maxnum','minnum'): args = tuple(sorted(args, key=repr))
                if base == 'fmuladd':
                    return ('fsum', tuple(sorted((self._fprod(args[0], args[1]), args[2]), key=repr)))
                return ('intr', base) + args
            return ('call', nm, tuple(self.canon(o) for o in ins.ops), self._iters(ins.block.name))
        if op == 'phi': return self._phi(ins)
        if op == 'extractvalue':
            return ('xv', self.canon(ins.ops[0]), ins.flags)
        if op == 'insertvalue':
            return ('iv', self.canon(ins.ops[0]), self.canon(ins.ops[1]), ins.flags)
        if op in ('atomicrmw','cmpxchg','landingpad'):
            return (op, ins.res)
        return (op,) + tuple(self.canon(o) for o in ins.ops)

    def _iters(self, block):
        return ()

    def _mul(self, a, b):
        a = lin_of(a); b = lin_of(b)
        # distribute
        r = {}
        c = a[1]*b[1]
        for t, k in a[2]: r[t] = r.get(t, 0) + k*b[1]
        for t, k in b[2]: r[t] = r.get(t, 0) + k*a[1]
        for t, k in a[2]:
            for u, l in b[2]:
                f = sorted(list(t[1] if t[0] == 'prod' else (t,)) + list(u[1] if u[0] == 'prod' else (u,)), key=repr)
                q = ('prod', tuple(f)); r[q] = r.get(q, 0) + k*l
        return simp(LIN(c, r))

    def _fneg(self, a):
        return self._fprod(('f', -1.0), a)
    def _fprod(self, a, b):
        const = 1.0; fs = []
        for x in (a, b):
            if x[0] == 'fprod': const *= x[1]; fs += list(x[2])
            elif x[0] == 'f': const *= x[1]
            else: fs.append(x)
        if not fs: return ('f', const)
        if const == -1.0 and len(fs) == 1 and fs[0][0] == 'fsum':
            return ('fsum', tuple(sorted((self._fneg(y) for y in fs[0][1]), key=repr)))
        if const == 1.0 and len(fs) == 1: return fs[0]
        return ('fprod', const, tuple(sorted(fs, key=repr)))

    NEG = {'eq':'ne','ne':'eq','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt','slt':'sge','sge':'slt','sgt':'sle','sle':'sgt'}
    FNEG = {'olt':'uge','oge':'ult','ogt':'ule','ole':'ugt','oeq':'une','une':'oeq','ult':'oge','uge':'olt','ugt':'ole','ule':'ogt','one':'ueq','ueq':'one','ord':'uno','uno':'ord'}
    SWAP = {'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','eq':'eq','ne':'ne',
            'olt':'ogt','ogt':'olt','ole':'oge','oge':'ole','oeq':'oeq','une':'une','one':'one','ueq':'ueq','ord':'ord','uno':'uno'}
    def _cmp(self, ins):
        a, b = (self.canon(o) for o in ins.ops)
        return self.mkcmp(ins.op, ins.pred, a, b)
    def mkcmp(self, op, pred, a, b):
        if op == 'fcmp':
            if repr(a) > repr(b): a, b, pred = b, a, self.SWAP[pred]
            return ('fcmp', pred, a, b)
        # booleans: x != 0 on an i1 value is x
        if lin_const(b) == 0 and isinstance(a, tuple) and a and a[0] in ('icmp','fcmp','and','or') and pred in ('ne','eq'):
            return a if pred == 'ne' else self.neg(a)
        d = lin_add(a, b, -1)
        if d[2]:
            g = 0
            for _, k in d[2]: g = gcd(g, k)
            if d[1] % g == 0 and g > 1: d = LIN(d[1]//g, [(t, k//g) for t, k in d[2]])
            if d[2][0][1] < 0:
                d = lin_scale(d, -1); pred = self.SWAP[pred]
        else:
            v = d[1]
            t = {'eq': v == 0, 'ne': v != 0, 'slt': v < 0, 'sle': v <= 0, 'sgt': v > 0, 'sge': v >= 0}.get(pred)
            if t is not None: return LIN(int(t))
        # x < c+1  ->  x <= c ; unsigned >0 -> !=0
        if pred in ('ugt',) and d[1] == 0 and len(d[2]) == 1: return ('icmp', 'ne', d)
        if pred in ('ule',) and d[1] == 0 and len(d[2]) == 1: return ('icmp', 'eq', d)
        if pred in ('uge',) and d[1] == -1 and len(d[2]) == 1: return ('icmp', 'ne', LIN(0, d[2]))
        if pred in ('ult',) and d[1] == -1 and len(d[2]) == 1: return ('icmp', 'eq', LIN(0, d[2]))
        # strict -> non-strict on signed/unsigned integers: a-b>0  ==  a-b-1>=0
        if pred in ('sgt','ugt'): pred = pred[0] + 'ge'; d = lin_add(d, LIN(-1))
        elif pred in ('slt','ult'): pred = pred[0] + 'le'; d = lin_add(d, LIN(1))
        return ('icmp', pred, d)
    def neg(self, c):
        if isinstance(c, tuple):
            if c[0] == 'icmp':
                p, d = c[1], c[2]
                if p in ('eq','ne'): return ('icmp', self.NEG[p], d)
                if p[1:] == 'ge': return ('icmp', p[0]+'le', lin_add(d, LIN(1)))
                if p[1:] == 'le': return ('icmp', p[0]+'ge', lin_add(d, LIN(-1)))
            if c[0] == 'fcmp': return ('fcmp', self.FNEG[c[1]], c[2], c[3])
            if c[0] == 'not': return c[1]
            if c[0] == 'lin' and not c[2]: return LIN(0 if c[1] else 1)
            if c[0] == 'and': return ('or',) + tuple(sorted((self.neg(x) for x in c[1:]), key=repr))
            if c[0] == 'or': return ('and',) + tuple(sorted((self.neg(x) for x in c[1:]), key=repr))
        return ('not', c)
    def _ite(self, c, a, b):
        la, lb = lin_const(a), lin_const(b)
        # boolean selects
        if la == 1 and lb == 0: return c
        if la == 0 and lb == 1: return self.neg(c)
        if isinstance(c, tuple) and c[0] == 'fcmp' and c[1] in ('olt','ole','ult','ule','ogt','oge','ugt','uge') and {a, b} == {c[2], c[3]} and a != b:
            less = c[1][1] == 'l'
            return ('fmax' if (less == (a == c[3])) else 'fmin',) + tuple(sorted((a, b), key=repr))
        if isinstance(c, tuple) and c[0] == 'not': return ('ite', c[1], b, a)
        if isinstance(c, tuple) and c[0] == 'icmp' and c[1] in ('ne','sle','ule'): return ('ite', self.neg(c), b, a)
        if isinstance(c, tuple) and c[0] == 'fcmp' and c[1][0] == 'u' and c[1] != 'uno': return ('ite', self.neg(c), b, a)
        return ('ite', c, a, b)

    # ------------------------------------------------------------ phis
    def _phi(self, ins):
        b = ins.block.name
        if b in self.loops and any(p in self.loops[b] for _, p in ins.phis):
            outs = [v for v, p in ins.phis if p not in self.loops[b] and p in self.keep]
            ins_ = [v for v, p in ins.phis if p in self.loops[b] and p in self.keep]
            self.active[ins.res] = ('phivar', ins.res)
            try:
                nx = [self.canon(v) for v in ins_]
            finally:
                del self.active[ins.res]
            st = [self.canon(v) for v in outs]
            if not outs or not ins_: return ('phi?', ins.res)
            me = ('phivar', ins.res)
            if all(x == nx[0] for x in nx) and all(x == st[0] for x in st):
                d = lin_add(nx[0], me, -1)
                if ins.ty in ('i64', 'i32', 'ptr', 'i16') and not any(t == me for t in walk(d)) and d[2] == ():
                    return simp(lin_add(st[0], LIN(0, [(('it', b), d[1])])))
                if ins.ty in ('i64', 'i32', 'ptr') and not any(t == me for t in walk(d)) and self._invariant(d, b):
                    return simp(lin_add(st[0], self._mul(d, ('it', b))))
                if nx[0] == me or nx[0] == st[0]: return st[0]
                # a value one iteration behind an induction value
                if ins.ty in ('i64', 'i32', 'ptr') and any(t == ('it', b) for t, _ in lin_of(nx[0])[2]) and not any(t == me for t in walk(nx[0])):
                    if lin_const(lin_add(lin_of(subst(nx[0], {('it', b): LIN(-1)})), lin_of(st[0]), -1)) == 0:
                        return simp(lin_of(subst(nx[0], {('it', b): LIN(-1, [(('it', b), 1)])})))
                return ('fold', b, st[0], subst(nx[0], {me: ('ACC', b)}))
            return ('fold', b, tuple(sorted(set(st), key=repr)), tuple(sorted((subst(x, {me: ('ACC', b)}) for x in nx), key=repr)))
        # merge
        vals = [(self.canon(v), p) for v, p in ins.phis if p in self.keep]
        if len(set(v for v, _ in vals)) == 1: return vals[0][0]
        # loop-exit phi: value
        if len(vals) == 2:
            r = self._merge2(ins, vals)
            if r is not None: return r
        parts = []
        for v, p in vals:
            parts.append((v, tuple(sorted(self.conds_edge(p, b), key=repr))))
        return ('merge', tuple(sorted(parts, key=repr)))
    def _invariant(self, e, h):
        return not any(isinstance(t, tuple) and t and t[0] == 'it' and t[1] == h for t in walk(e))
    def _merge2(self, ins, vals):
        b = ins.block.name
        d = self.cfg.idom[b]
        t = self.fn.blocks[d].instrs[-1]
        if t.op == 'br' and len(t.targets) == 2:
            # which side does each incoming edge come from
            side = []
            for v, p in vals:
                s = None
                for k, x in enumerate(t.targets):
                    other = t.targets[1-k]
                    if (p == d and x == b) or (p != d and x != b and self.cfg.dominates(x, p)): s = k
                    elif p == d and t.targets[0] == t.targets[1]: s = None
                side.append(s)
            if set(side) == {0, 1}:
                c = self.canon(t.ops[0])
                vt = [v for (v, _), s in zip(vals, side) if s == 0][0]
                vf = [v for (v, _), s in zip(vals, side) if s == 1][0]
                # zero-trip guard of a loop: value start vs fold
                g = self._fold_guard(c, vt, vf)
                if g is not None: return g
                return self._ite(c, vt, vf)
        return None
    def _fold_guard(self, c, vt, vf):
        # a fold merged with its own start under the loop's zero-trip guard is just the fold
        for skip, fold, pol in ((vt, vf, c), (vf, vt, self.neg(c))):
            f = self._fold_of(fold)
            if f is not None and f[2] == skip and self.is_zero_guard(pol, f[1]): return fold
            # induction value after loop
            if f is None:
                its = {t[1] for t in walk(fold) if isinstance(t, tuple) and t and t[0] == 'it'}
                for h in its:
                    if self.is_zero_guard(pol, h):
                        tc = self.trip(h)
                        fin = subst(fold, {('it', h): lin_add(tc, LIN(-1))}) if tc is not None else None
                        if fin is not None and subst(fin, {}) is not None:
                            z = lin_add(fin, skip, -1)
                            # equals skip when tc==0 ?
                            if tc is not None and subst(z, {}) and self._zero_when(z, tc): return fin
        return None
    def _zero_when(self, z, tc):
        tc = lin_of(tc)
        for t, k in tc[2]:
            if abs(k) != 1 or any(t in walk(u) for u, _ in tc[2] if u != t): continue
            r = subst(z, {t: simp(lin_add(LIN(0, [(t, 1)]), lin_scale(tc, k), -1))})
            if lin_const(r) == 0: return True
        return False
    def _fold_of(self, x):
        if isinstance(x, tuple) and x and x[0] == 'foldend': return ('fold', x[1], x[2], x[3])
        # value "update applied to the fold" leaving a rotated loop
        return None

    # ------------------------------------------------------------ loops
    def exits(self, h):
        out = []
        body = self.loops[h]
        for b in sorted(body):
            for s in self.cfg.succ[b]:
                if s not in body: out.append((b, s))
        return out
    def trip(self, h):
        """canonical trip count or None when not countable by one exit test"""
        if h in self.tcmemo: return self.tcmemo[h]
        self.tcmemo[h] = None
        ex = self.exits(h)
        r = None
        if len(ex) == 1:
            b, s = ex[0]
            t = self.fn.blocks[b].instrs[-1]
            if t.op == 'br' and len(t.targets) == 2:
                c = self.canon(t.ops[0])
                if t.targets[0] != s: c = self.neg(c)   # c: condition to leave
                n = self._leave_at(c, h)
                if n is not None:
                    latch = [p for p in self.cfg.pred[h] if p in self.loops[h]]
                    bottom = all(self.cfg.dominates(b, l) for l in latch) and b in latch
                    top = b == h and b not in latch
                    if b in latch and len(latch) == 1: r = lin_add(n, LIN(1))
                    elif all(self.cfg.dominates(b, l) for l in latch) and self._nothing_before(h, b): r = n
                    elif all(self.cfg.dominates(b, l) for l in latch):
                        r = ('midtest', n)
        self.tcmemo[h] = simp(r) if r is not None and is_lin(r) else r
        return self.tcmemo[h]
    def _nothing_before(self, h, b):
        """no effects in blocks executed before the test in an iteration (blocks dominating b inside the loop)"""
        x = b
        body = self.loops[h]
        blocks = {b}
        # all blocks of the loop that can reach b without passing the back edge
        st = [b]
        while st:
            y = st.pop()
            if y == h: continue
            for p in self.cfg.pred[y]:
                if p in body and p not in blocks:
                    blocks.add(p); st.append(p)
        for y in blocks:
            for i in self.fn.blocks[y].instrs:
                if i.op == 'store' or (i.op in ('call','invoke') and not self.ignorable(i)): return False
        return True
    def _leave_at(self, c, h):
        """first iteration number at which the leave-condition c holds"""
        if not (isinstance(c, tuple) and c[0] == 'icmp'): return None
        pred, d = c[1], c[2]
        it = ('it', h)
        k = dict(d[2]).get(it)
        if k is None and pred == 'eq':
            d = self._factor(d, it) or d
            k = dict(d[2]).get(it)
        if k is None: return None
        rest = LIN(d[1], [(t, q) for t, q in d[2] if t != it])
        if any(t == it for t in walk(rest)): return None
        # leave when k*it + rest PRED 0
        if pred == 'eq': pass
        elif pred[1:] == 'ge' and k > 0: pass           # k*it >= -rest
        elif pred[1:] == 'le' and k < 0: pass
        else: return None
        if k < 0: rest = lin_scale(rest, -1); k = -k
        num = lin_scale(rest, -1)
        if all(q % k == 0 for _, q in num[2]) and num[1] % k == 0:
            return LIN(num[1]//k, [(t, q//k) for t, q in num[2]])
        if pred == 'eq': return ('exactdiv', num, k)
        return ('ceildiv', num, k)
    def _factor(self, d, it):
        """d = f*(... + k*it): return the bracket (used for == 0 with f nonzero)"""
        if d[1] != 0: return None
        f = None
        for t, k in d[2]:
            if t[0] == 'prod' and it in t[1]:
                rest = list(t[1]); rest.remove(it)
                if len(rest) == 1: f = rest[0]
        if f is None: return None
        r = LIN(0)
        for t, k in d[2]:
            if t == f: r = lin_add(r, LIN(k))
            elif t[0] == 'prod' and f in t[1]:
                rest = list(t[1]); rest.remove(f)
                r = lin_add(r, LIN(0, [(rest[0] if len(rest) == 1 else ('prod', tuple(rest)), k)]))
            else: return None
        return r
    def is_zero_guard(self, c, h):
        """condition c means 'loop h runs zero times'"""
        tc = self.trip(h)
        if tc is None: return False
        e = self.mkcmp('icmp', 'eq', tc, LIN(0))
        if c == e: return True
        for p in ('sle','ule'):
            if c == self.mkcmp('icmp', p, tc, LIN(0)): return True
        # product of trip counts of the nest
        if isinstance(c, tuple) and c[0] == 'icmp' and c[1] == 'eq' and c[2][1] == 0 and len(c[2][2]) == 1 and c[2][2][0][0][0] == 'prod':
            fs = list(c[2][2][0][0][1])
            if tc in fs and all(any(self.trip(q) == f for q in self.loops) for f in fs): return True
        return False

    # ------------------------------------------------------------ conditions
    def _prunable(self): return set()
    def edge_cond(self, a, s):
        t = self.fn.blocks[a].instrs[-1]
        if t.op == 'br' and len(t.targets) == 2:
            if t.targets[0] == t.targets[1]: return None
            c = self.canon(t.ops[0])
            return c if t.targets[0] == s else self.neg(c)
        if t.op == 'switch':
            v = self.canon(t.ops[0])
            vals = tuple(sorted(x for x, b in t.cases if b == s))
            if t.targets[0] == s: return ('switchdefault', v, tuple(sorted(x for x, b in t.cases if b != s)))
            if len(vals) == 1: return self.mkcmp('icmp', 'eq', v, LIN(vals[0]))
            return ('switch', v, vals)
        return ('edge', a, s)
    def conds_edge(self, p, b):
        r = set(self.conds(p))
        if len(self.cfg.succ[p]) > 1:
            r.add(self.edge_cond(p, b))
        return r
    def conds(self, block):
        """conditions controlling block, loop machinery removed"""
        stack = self.loop_stack(block)
        out = set(); seen = set(); work = [block]
        while work:
            x = work.pop()
            for (a, s) in self.cd[x]:
                if (a, s) in seen: continue
                seen.add((a, s))
                # loop exit tests of enclosing (or already finished) loops
                h = self.inner.get(a)
                isexit = False; hh = h
                while hh is not None:
                    if any(e[0] == a for e in self.exits(hh)) and s in self.loops[hh]:
                        isexit = True
                        if hh in stack and self.trip(hh) is None:
                            out.add(('stay', self.edge_cond(a, s)))
                        break
                    hh = self.parent[hh]
                if not isexit:
                    c = self.edge_cond(a, s)
                    if c is not None and lin_const(c) is None:
                        if not any(self.is_zero_guard(self.neg(c), q) for q in stack):
                            out.add(c)
                work.append(a)
        # flatten conjunctions
        fl = set()
        st = list(out)
        while st:
            c = st.pop()
            if isinstance(c, tuple) and c and c[0] == 'and': st.extend(c[1:])
            elif isinstance(c, tuple) and c and c[0] == 'ite' and lin_const(c[3]) == 0: st.extend((c[1], c[2]))
            else: fl.add(c)
        return {c for c in fl if not any(self.is_zero_guard(self.neg(c), q) for q in stack)}

    # ------------------------------------------------------------ effects
    IGN = re.compile(r'^(llvm\.(lifetime|dbg|assume|experimental\.noalias|prefetch|invariant|stacksave|stackrestore|va_)|__cxa_guard|__clang_call_terminate)')
    def callname(self, ins):
        c = ins.callee
        if c.kind == 'global': return self.m.dem.get(c.v, c.v) if not c.v.startswith('llvm.') else c.v
        if c.kind == 'local': return '*indirect'
        return str(c.v)
    def ignorable(self, ins):
        if ins.callee.kind == 'global' and self.IGN.match(ins.callee.v): return True
        return False
    def effects(self, skip=None):
        out = []
        for b in self.fn.order:
            if b not in self.keep: continue
            for i in self.fn.blocks[b].instrs:
                if i.op in ('call','invoke'):
                    if self.ignorable(i): continue
                    nm = self.callname(i)
                    if nm.startswith('llvm.') and not nm.startswith(('llvm.mem',)): continue
                    if skip and skip(nm): continue
                    args = tuple(self.canon(o) for o in i.ops)
                    if nm == '*indirect': nm = '*'; args = (self.canon(i.callee),) + args
                    out.append(Effect(self, i, 'call', nm, args))
                elif i.op == 'store':
                    out.append(Effect(self, i, 'store', 'store', (self.canon(i.ops[1]), self.canon(i.ops[0]))))
                elif i.op in ('atomicrmw','cmpxchg'):
                    out.append(Effect(self, i, 'store', 'atomic', (self.canon(i.ops[1]),)))
                elif i.op == 'ret' and i.ops:
                    out.append(Effect(self, i, 'ret', 'ret', (self.canon(i.ops[0]),)))
        return out

class Effect:
    def __init__(self, view, ins, kind, name, args):
        self.view = view; self.ins = ins; self.kind = kind; self.name = name; self.args = args
        self.block = ins.block.name
        self.stack = view.loop_stack(self.block)
        self.conds = view.conds(self.block)
        self.loops = tuple(view.trip(h) for h in self.stack)
    def where(self): return self.view.m.where(self.ins)
    def key(self, names):
        """canonical, comparable form; names: alloca numbering"""
        m = {}
        for d, h in enumerate(self.stack): m[('it', h)] = ('i', d)
        def q(x): return simp_deep(rename(close(x, self.view, tuple(self.stack)), m, names, self))
        return (self.kind, self.name, tuple(q(a) for a in self.args),
                tuple(q(t) if t is not None else ('?',) for t in self.loops),
                tuple(sorted((q(c) for c in self.conds), key=repr)))

def rebuild(x, parts):
    """re-normalise a node after its children changed"""
    if x[0] == 'fsum' and len(parts) == 2:
        out = []
        for y in parts[1]:
            if isinstance(y, tuple) and y and y[0] == 'fsum': out += list(y[1])
            else: out.append(y)
        out = [y for y in out if y not in (('f', 0.0), ('f', -0.0))]
        if not out: return ('f', 0.0)
        cs = [y for y in out if y[0] == 'f']
        if len(cs) > 1: out = [y for y in out if y[0] != 'f'] + [('f', sum(y[1] for y in cs))]
        return out[0] if len(out) == 1 else ('fsum', tuple(sorted(out, key=repr)))
    if x[0] in ('fmax','fmin'):
        a, b = parts[1], parts[2]
        if a == b: return a
        if a[0] == 'f' and b[0] == 'f': return ('f', (max if x[0] == 'fmax' else min)(a[1], b[1]))
        return (x[0],) + tuple(sorted((a, b), key=repr))
    if x[0] == 'intr' and x[1] in ('smax','smin','umax','umin'):
        a, b = parts[2], parts[3]
        if a == b: return a
        if lin_const(a) is not None and lin_const(b) is not None: return LIN((max if 'max' in x[1] else min)(lin_const(a), lin_const(b)))
        return x[:2] + tuple(sorted((a, b), key=repr))
    return tuple(parts)

def mapx(x, f):
    """apply f to the children of a node and re-normalise"""
    if is_lin(x):
        r = LIN(x[1])
        for t, k in x[2]: r = lin_add(r, f(t), k)
        return simp(r)
    if not x or not isinstance(x[0], str):
        return tuple(f(y) if isinstance(y, tuple) else y for y in x)
    if x[0] == 'icmp': return ('icmp', x[1], lin_of(f(x[2])))
    if x[0] == 'fsum': return rebuild(x, [x[0], [f(y) for y in x[1]]])
    return rebuild(x, [f(y) if isinstance(y, tuple) else y for y in x])

def substn(x, m):
    if not isinstance(x, tuple): return x
    if x in m: return m[x]
    return mapx(x, lambda y: substn(y, m) if isinstance(y, tuple) else y)

def close(x, view, stack, memo=None):
    """turn 'last step of a loop applied to its running value' into the completed fold, for loops not around the use"""
    if not isinstance(x, tuple): return x
    if memo is None:
        memo = {}
    if (x, stack) in memo: return memo[x, stack]
    pats = {}
    def rec(y):
        if not isinstance(y, tuple): return y
        if y and y[0] == 'fold' and not isinstance(y[2], str) and len(y) == 4 and isinstance(y[1], str):
            h = y[1]
            inner = tuple(view.loop_stack(h))
            if isinstance(y[3], tuple) and y[3] and isinstance(y[3][0], tuple): return y
            f = ('fold', h, close(y[2], view, inner[:-1], memo), close(y[3], view, inner, memo))
            if h not in stack:
                done = ('foldend', h, f[2], f[3])
                ex = view.exits(h)
                if len(ex) == 1 and ex[0][0] == h and not (len([p for p in view.cfg.pred[h] if p in view.loops[h]]) == 1 and h in view.cfg.pred[h]):
                    return done
                pats[f] = (substn(f[3], {('ACC', h): f}), done)
            return f
        z = mapx(y, rec)
        for f, (p, done) in pats.items():
            if z == p: z = done; break
            if isinstance(z, tuple) and z and z[0] == 'fsum' and p[0] == 'fsum':
                zs = list(z[1])
                if all(t in zs for t in p[1]):
                    for t in p[1]: zs.remove(t)
                    z = rebuild(('fsum',), ['fsum', zs + [done]])
            if is_lin(z) and is_lin(p):
                d = dict(z[2]); k = d.get(f)
                if k is not None and k == 1 and all(d.get(t) == c for t, c in p[2]):
                    z = simp(lin_add(lin_add(z, p, -1), done))
        if isinstance(z, tuple) and z and z[0] == 'ite':
            for a, b, c in ((z[2], z[3], z[1]), (z[3], z[2], view.neg(z[1]))):
                if isinstance(b, tuple) and b and b[0] == 'foldend' and b[2] == a:
                    if view.is_zero_guard(c, b[1]): return b
                    # guard also covers an empty inner loop, whose step leaves the start value unchanged
                    inner = [t for t in walk(b[3]) if isinstance(t, tuple) and t and t[0] == 'foldend']
                    fac = guard_factors(c)
                    if fac and view.trip(b[1]) in fac and all(t == view.trip(b[1]) or any(view.trip(q[1]) == t for q in inner) for t in fac):
                        st = substn(b[3], {**{q: q[2] for q in inner}, ('ACC', b[1]): b[2]})
                        if st == b[2]: return b
        return z
    r = rec(x)
    memo[x, stack] = r
    return r

def guard_factors(c):
    if isinstance(c, tuple) and c[0] == 'icmp' and c[1] == 'eq' and c[2][1] == 0 and len(c[2][2]) == 1:
        t = c[2][2][0][0]
        return list(t[1]) if t[0] == 'prod' else [t]
    return None

def rename(x, m, names, eff):
    if not isinstance(x, tuple): return x
    if x in m: return m[x]
    if x and x[0] == 'it':
        return ('last', None)
    if x and x[0] == 'ACC': return ('ACC', len(eff.view.loop_stack(x[1])))
    if x and x[0] == 'al':
        return names(x)
    if x and x[0] in ('fold','foldend'):
        h = x[1]
        v = eff.view
        mm = dict(m)
        if ('it', h) in m:
            tag = ('at', m[('it', h)])
        else:
            st = v.loop_stack(h)
            depth = len([y for y in st if ('it', y) in m])
            mm[('it', h)] = ('k', len(st))
            tag = ('over', rename(v.trip(h), m, names, eff) if v.trip(h) is not None else '?', ('k', len(st)))
        return (x[0], tag, rename(x[2], mm, names, eff), rename(x[3], mm, names, eff))
    if is_lin(x):
        r = LIN(x[1])
        for t, k in x[2]: r = lin_add(r, rename(t, m, names, eff), k)
        return simp(r)
    if x and x[0] == 'icmp': return ('icmp', x[1], lin_of(rename(x[2], m, names, eff)))
    return tuple(rename(y, m, names, eff) for y in x)

def simp_deep(x):
    return x

def show(x):
    if not isinstance(x, tuple): return str(x)
    if is_lin(x):
        s = ' + '.join((f'{k}*' if k != 1 else '') + show(t) for t, k in x[2])
        if x[1] or not s: s = (s + ' + ' if s else '') + str(x[1])
        return '(' + s + ')' if len(x[2]) > 1 else s
    if not x: return '()'
    h = x[0]
    if h == 'p': return f'arg{x[1]}'
    if h == 'ld': return f'[{show(x[1])}]'
    if h == 'i': return 'ijklmn'[x[1]] if x[1] < 6 else f'i{x[1]}'
    if h == 'f': return repr(x[1])
    if h == 'g': return '@' + x[1]
    if h == 'icmp': return f'{show(x[2])} {x[1]} 0'
    if isinstance(h, str): return f'{h}(' + ', '.join(show(y) for y in x[1:]) + ')'
    return '<' + ', '.join(show(y) for y in x) + '>'
