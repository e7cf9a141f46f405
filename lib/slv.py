"""Values of opaque vector blocks at the end of straight-line kernels, as linear forms over the initial blocks.

Every call on an opaque vector or matrix block is interpreted: a block holds sum(coefficient * operator...operator initial block)
with polynomial coefficients.  Blocks are identified by address (parameter and offset, or local object)."""
import re
import ir as IR
import summary as S
from summary import lin_const
from events import EvView, head
from harness import Broken

def padd(p, q):
    d = dict(p)
    for m, c in q: d[m] = d.get(m, 0) + c
    return tuple(sorted((m, c) for m, c in d.items() if c))
def pmul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            k = tuple(sorted(m + n)); d[k] = d.get(k, 0) + c*e
    return tuple(sorted((m, c) for m, c in d.items() if c))
def num(c): return ((( ), float(c)),) if c else ()
def var(n): return (((n,), 1.0),)
ONE = num(1); NEG = num(-1)
def add(f, g, c=ONE):
    d = dict(f)
    for a, k in g: d[a] = padd(d.get(a, ()), pmul(k, c))
    return tuple(sorted(((a, k) for a, k in d.items() if k), key=repr))
def scale(f, c): return add((), f, c)
def app(op, f):
    """operator applied to a form; ('inv', A) cancels A"""
    r = ()
    for a, k in f:
        if a[0] == 'op' and (a[1] == ('inv', op) or op == ('inv', a[1])): r = add(r, ((a[2], k),))
        else: r = add(r, ((('op', op, a), k),))
    return r
def init(x): return ((('x', x), ONE),)
def sum_(*t):
    r = ()
    for f, c in t: r = add(r, f, c)
    return r
def shp(p): return ' + '.join('*'.join((['%g' % c] if c != 1 or not m else []) + list(m)) for m, c in p) or '0'
def sha(a): return str(a[1]) if a[0] == 'x' else '%s(%s)' % (shop(a[1]), sha(a[2]))
def shop(o): return 'inverse ' + shop(o[1]) if o[0] == 'inv' else '%s%s' % (o[0], list(o[1:]) if len(o) > 1 else '')
def sh(f): return ' + '.join('(%s) %s' % (shp(k), sha(a)) for a, k in f) or '0'

class Bad(Exception):
    def __init__(self, txt, i): super().__init__(txt); self.i = i

class LView(EvView):
    def __init__(self, m, fn):
        super().__init__(m, fn); self.u = IR.CFG(fn, unwind=False); self.ret = {}; self.sc = {}
    def canon_i(self, ins):
        if ins.res in self.ret: return self.ret[ins.res]
        if ins.op == 'load':
            a = self.canon(ins.ops[0])
            return self.sc.get(a, ('ld', a, str(ins.ty)))
        return super().canon_i(ins)

class Line:
    """vecs: class regex of vector blocks; mats: function (call head, address) -> operator; ops: extra calls"""
    def __init__(self, m, fn, block, matop, scal, extra=None):
        self.m = m; self.fn = fn; self.block = block; self.matop = matop; self.scal = scal; self.extra = extra
        self.v = LView(m, fn)
        self.mem = {}; self.env = {}; self.log = []
        b = self.v.u.entry; prev = None; n = 0
        while b is not None:
            n += 1
            if n > 500: raise Broken('%s: not straight-line' % fn.dem)
            nxt = None
            for i in fn.blocks[b].instrs:
                if i.op == 'load': self.v.ret[i.res] = self.v.canon_i(i)
                elif i.op in ('call', 'invoke'): self.call(i)
                elif i.op == 'store' : self.store(i)
                elif i.op == 'phi':
                    for vv, p in i.phis:
                        if p == prev and vv.kind == 'local' and vv.v in self.env: self.env[i.res] = self.env[vv.v]
                if i.op == 'invoke': nxt = i.normal
                elif i.op == 'br':
                    if len(i.targets) > 1: raise Broken('%s: branch at %s' % (fn.dem, m.where(i)))
                    nxt = i.targets[0]
            prev, b = b, nxt
    def addr(self, o):
        return self.v.canon(o)
    def get(self, a, i):
        if a in self.mem: return self.mem[a]
        x = self.block(a)
        if x is None: raise Bad('a block is used before it is set', i)
        return init(x)
    def put(self, a, f, i): self.mem[a] = f; self.log.append((a, i))
    def coef(self, o, i):
        x = self.v.canon(o)
        return self.poly(x, i)
    def poly(self, x, i):
        if isinstance(x, (int, float)): return num(x)
        if isinstance(x, tuple):
            if x[0] == 'f': return num(x[1])
            if x in self.scal: return var(self.scal[x])
            if x[0] == 'fsum':
                r = ()
                for y in x[1]: r = padd(r, self.poly(y, i))
                return r
            if x[0] == 'fprod':
                r = num(x[1])
                for y in x[2]: r = pmul(r, self.poly(y, i))
                return r
        raise Broken('%s: factor %s at %s' % (self.fn.dem, S.show(x) if isinstance(x, tuple) else x, self.m.where(i)))
    def store(self, i):
        self.v.sc[self.v.canon(i.ops[1])] = self.v.canon(i.ops[0])
    def call(self, i):
        nm = i.callee.v if i.callee is not None and i.callee.kind == 'global' else None
        if nm is None: raise Broken('%s: indirect call at %s' % (self.fn.dem, self.m.where(i)))
        if nm.startswith('llvm.'): return
        dem = self.m.dem.get(nm, nm); h = head(dem); op = h.split('::')[-1]; a = [self.addr(o) for o in i.ops]
        if self.extra:
            r = self.extra(self, i, h, dem, a)
            if r: return
        cls = h[:-len(op)-2]
        if op.startswith('~') : return
        last = re.sub(r'<.*', '', cls.split('::')[-1]) if '<' in cls else cls.split('::')[-1]
        ctor = op == last
        if ctor:
            if len(a) == 1: self.mem.pop(a[0], None); self.mem[a[0]] = ()
            elif 'double' in dem.split('(')[-1]: self.put(a[0], scale(init('one'), self.coef(i.ops[1], i)), i)
            else: self.put(a[0], self.get(a[1], i), i)
            return
        if op == 'operator=':
            if re.search(r'\((double)\)', dem):
                c = self.coef(i.ops[1], i); self.put(a[0], scale(init('one'), c), i)
            else: self.put(a[0], self.get(a[1], i), i)
        elif op in ('operator+=', 'operator-='): self.put(a[0], add(self.get(a[0], i), self.get(a[1], i), ONE if op[-2] == '+' else NEG), i)
        elif op == 'operator*=': self.put(a[0], scale(self.get(a[0], i), self.coef(i.ops[1], i)), i)
        elif op == 'axpy': self.put(a[0], add(self.get(a[0], i), self.get(a[2], i), self.coef(i.ops[1], i)), i)
        elif op in ('mv', 'umv', 'mmv', 'usmv', 'mtv', 'umtv', 'mmtv', 'usmtv', 'mhv', 'umhv', 'mmhv', 'usmhv'):
            t = {'t': 'transposed', 'h': 'hermitian'}.get(op[-2] if op[-2] in 'th' else '')
            A = self.matop(h, a[0], i); A = ((t,) + A) if t else A
            us = op.startswith('us'); src, dst = a[-2], a[-1]
            c = self.coef(i.ops[1], i) if us else NEG if op.startswith('mm') else ONE
            f = app(A, self.get(src, i))
            if src == dst: raise Bad('a product is written over its own operand', i)
            self.put(dst, scale(f, c) if op in ('mv', 'mtv', 'mhv') else add(self.get(dst, i), f, c), i)
        elif op == 'solve':
            A = self.matop(h, a[0], i)
            self.put(a[1], app(('inv', A), self.get(a[2], i)), i)
        else: raise Broken('%s: call of %s at %s' % (self.fn.dem, dem, self.m.where(i)))
        if i.res: self.v.ret[i.res] = a[0]
