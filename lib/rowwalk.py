"""Set-of-states analysis of row sweeps over a sparse matrix whose iterators and entries are opaque.

The kernel is interpreted over a finite abstract domain: a row is a run of lower entries, the diagonal entry and a run of
upper entries, either run possibly empty; a column iterator points to the first / a later entry of a run, to the diagonal or
past an end; a row iterator to the current row or past an end.  Comparisons of indices and iterators are decided exactly in
every abstract state, so all paths through all rows of all patterns are covered by finitely many states.  The value of every
vector entry is tracked as a formula over the sums of matrix entries times neighbour values; a sum becomes complete only if the
scan of its run used every entry exactly once with the component belonging to that entry."""
import re
import ir as IR
from events import head
from harness import Broken

class Bad(Exception):
    """property violation on the current path"""
class Skip(Exception):
    """path is infeasible or irrelevant (ends in an exception)"""

ONE = (1, 0); ZERO = (0, 0)
def pmul(a, b):
    if a[1] and b[1]: raise Bad('the damping factor is applied twice')
    return (a[0]*b[0], a[0]*b[1] + a[1]*b[0])
def F(*terms):
    d = {}
    for a, c in terms:
        x = d.get(a, ZERO); d[a] = (x[0]+c[0], x[1]+c[1])
    return ('F', tuple(sorted(((a, c) for a, c in d.items() if c != ZERO), key=repr)))
def fadd(x, y, c=ONE): return F(*x[1], *((a, pmul(k, c)) for a, k in y[1]))
def fscale(x, c): return F(*((a, pmul(k, c)) for a, k in x[1]))
def fmap(x, f): return F(*((f(a), k) for a, k in x[1]))
def dapp(op, x):
    inv = {'D': 'Di', 'Di': 'D'}
    return fmap(x, lambda a: a[1] if isinstance(a, tuple) and a[0] == inv.get(op) else (op, a))
def atom(a): return F((a, ONE))
def sh(x):
    if isinstance(x, tuple) and x and x[0] == 'F':
        def c(k): return ' + '.join(s for s in ('%g' % k[0] if k[0] else '', ('%g*w' % k[1] if k[1] != 1 else 'w') if k[1] else '') if s)
        return ' + '.join('(%s) %s' % (c(k), sh(a)) for a, k in x[1]) or '0'
    if isinstance(x, tuple) and x:
        n = {'S': 'sum', 'N': 'inner', 'Di': 'solve', 'D': 'diag*', 'E': 'dinv*', 'T': 'transposed sum', 'P': 'updated', 'part': 'incomplete sum', 'bad': 'incomplete sum'}.get(x[0], str(x[0]))
        return '%s(%s)' % (n, ', '.join(sh(y) for y in x[1:]))
    return {'L': 'lower', 'U': 'upper'}.get(x, str(x))

class State:
    def __init__(s):
        s.env = {}; s.mem = {}; s.toks = {}; s.vecs = {}; s.row = None; s.sweep = 0; s.open = False; s.empty = None; s.dir = None; s.scat = {}; s.ntok = 0; s.pre = False; s.wr = frozenset()
    def copy(s):
        t = State(); t.__dict__.update(s.__dict__)
        for k in ('env', 'mem', 'toks', 'vecs', 'scat'): setattr(t, k, dict(getattr(s, k)))
        return t
    def mapvals(s, f):
        for d in (s.env, s.mem, s.scat):
            for k in d: d[k] = f(d[k])
        s.vecs = {k: tuple(f(x) for x in v) for k, v in s.vecs.items()}
    def key(s):
        order = []
        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'tk':
                    if x not in order: order.append(x)
                else:
                    for y in x: walk(y)
        parts = (tuple(sorted(s.env.items())), tuple(sorted(s.mem.items())), tuple(sorted(s.vecs.items())), tuple(sorted(s.scat.items())))
        parts = eval_sorted(parts)
        walk(parts)
        ren = {t: ('tk', i) for i, t in enumerate(order)}
        def rn(x):
            if isinstance(x, tuple):
                if x in ren: return ren[x]
                return tuple(rn(y) for y in x)
            return x
        return (rn(parts), tuple(s.toks.get(t) for t in order), s.row, s.sweep, s.open, s.empty, s.dir, s.pre, s.wr)
def eval_sorted(x): return x

OLD = ('old',)
ROWVALS = ('idx', 'ridx', 'ent', 'row', 'vref', 'entval', 'nb', 'cit', 'shift', 'dent', 'dentval', 'prod', 'tprod', 'nbupd')

class Walk:
    def __init__(self, m, fn, roles, diag=True, hasU=(0, 1), maxst=60000, consts=None):
        """roles: parameter index -> ('A',) | ('vec', name, readonly) | ('num', poly) | ('dvec', name) | ('int', k)"""
        self.m = m; self.fn = fn; self.roles = roles; self.diag = diag; self.hasUs = hasU
        self.problems = {}; self.nst = 0; self.maxst = maxst
        self.reg = {}; self.final = None; self.finals = []; self.sweeps = None
        self.opnames = set(); self.diffs = []
        self._live()
        for only in (True, False):
            self.only11 = only
            self.explore()
            if self.problems: break
    # ------------------------------------------------------------------ liveness
    def _live(self):
        fn = self.fn
        self.cfg = IR.CFG(fn, unwind=False)
        use = {}; dfn = {}
        for b in self.cfg.succ:
            u = set(); d = set()
            for i in fn.blocks[b].instrs:
                if i.op != 'phi':
                    for o in self.ops(i):
                        if o not in d: u.add(o)
                if i.res: d.add(i.res)
            use[b] = u; dfn[b] = d
        live = {b: set() for b in use}
        ch = True
        while ch:
            ch = False
            for b in live:
                o = set()
                for s in self.cfg.succ[b]:
                    if s not in live: continue
                    o |= live[s] - {i.res for i in fn.blocks[s].instrs if i.op == 'phi'}
                    for i in fn.blocks[s].instrs:
                        if i.op == 'phi':
                            for v, p in i.phis:
                                if p == b and v.kind == 'local': o.add(v.v)
                n = use[b] | (o - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        self.live = live
    def ops(self, i):
        out = []
        def rec(o):
            if o is None or not hasattr(o, 'kind'): return
            if o.kind == 'local': out.append(o.v)
        for o in i.ops or (): rec(o)
        if i.op in ('call', 'invoke') and i.callee is not None: rec(i.callee)
        return out
    # ------------------------------------------------------------------ exploration
    def explore(self):
        st = self.mkstate()
        for k, r in self.roles.items():
            name = self.fn.params[k][0]
            if r[0] == 'vec':
                st.vecs[r[1]] = (atom(r[1]), None); st.env[name] = ('vec', r[1])
            elif r[0] == 'num': st.env[name] = ('num', r[1])
            elif r[0] == 'numref': st.env[name] = ('obj', name); st.mem[name] = ('num', r[1])
            elif r[0] == 'int': st.env[name] = ('int', r[1])
            elif r[0] in ('crs', 'inv'): st.vecs[r[1]] = (F(), None); st.env[name] = r
            elif r[0] == 'dvec': st.env[name] = ('dvecobj', r[1])
            else: st.env[name] = r
        self.ro = {r[1] for r in self.roles.values() if r[0] == 'vec' and len(r) > 2 and r[2]}
        seen = set(); work = [(self.cfg.entry, None, st)]
        while work:
            b, prev, st = work.pop()
            st = st.copy()
            try: self.phis(st, b, prev)
            except Bad as e: self.problem(self.fn.blocks[b].instrs[0], str(e)); continue
            liv = self.live[b] | {i.res for i in self.fn.blocks[b].instrs if i.op == 'phi'}
            st.env = {k: v for k, v in st.env.items() if k in liv or k in self.pnames()}
            k = (b, st.key())
            if k in seen: continue
            seen.add(k); self.nst += 1
            if self.nst > self.maxst: raise Broken('row walk of %s: too many states' % self.fn.dem)
            instrs = self.fn.blocks[b].instrs
            cur = [(st, 0)]
            while cur:
                s, n = cur.pop()
                while n < len(instrs):
                    i = instrs[n]
                    if i.op == 'phi': n += 1; continue
                    try: r = self.step(s, i)
                    except Bad as e: self.problem(i, str(e)); break
                    except Skip: break
                    if r is None: n += 1; continue
                    if r[0] == 'goto':
                        for t in r[1]: work.append((t, b, s))
                        break
                    if r[0] == 'end': break
                    # fork: several successor states continuing after (True) or at (False) the instruction
                    for t, after in r[1:][0]: cur.append((t, n+1 if after else n))
                    break
                if len(self.problems) > 20: return
    def mkstate(self): return State()
    def pnames(self):
        if not hasattr(self, '_pn'): self._pn = {p[0] for p in self.fn.params}
        return self._pn
    def problem(self, i, txt):
        self.problems.setdefault((self.m.where(i), txt), i)
    def phis(self, st, b, prev):
        new = {}
        for i in self.fn.blocks[b].instrs:
            if i.op != 'phi': continue
            for v, p in i.phis:
                if p == prev: new[i.res] = self.val(st, v)
        st.env.update(new)
    # ------------------------------------------------------------------ values
    def val(self, st, v):
        if v.kind == 'const':
            if isinstance(v.v, int): return ('int', v.v)
            if isinstance(v.v, float): return ('num', (v.v, 0))
            if str(v.v) in ('true', 'false'): return ('int', int(str(v.v) == 'true'))
            return ('c', str(v.v))
        if v.kind == 'local': return st.env.get(v.v, ('undef', v.v))
        return ('c', str(v.v))
    def cls(self, st, t): return 'D' if t == 'D' else st.toks[t][0]
    def newtok(self, st, cls, first):
        st.ntok += 1; t = ('tk', 'n%d' % st.ntok)
        while t in st.toks: st.ntok += 1; t = ('tk', 'n%d' % st.ntok)
        st.toks[t] = (cls, first); return t
    def rowend(self, st):
        """the current row is finished: compare / register the row's result"""
        L, U = st.row
        res = {}
        for n, (base, cur) in st.vecs.items():
            if cur is not None and cur != base: res[n] = cur
        for n, f in st.scat.items(): res['scatter ' + n] = f
        full = bool(L and U) if 1 in self.hasUs else bool(L)
        written = {n for n in res}
        def fix(a):
            # neighbours of vectors that are not written in this sweep have their old value
            if isinstance(a, tuple):
                if a[0] == 'P' and a[1] == st.sweep and a[2] not in written and ('scatter ' + a[2]) not in written: return st.vecs[a[2]][0]
                return tuple(fix(y) for y in a)
            return a
        res = {n: F(*((fix(a), c) for a, c in f[1])) for n, f in res.items()}
        def hasbad(f): return any(isinstance(a, tuple) and re.search(r"'(part|bad)'", repr(a)) for a, c in f[1])
        for n, f in res.items():
            if hasbad(f): raise Bad('an entry of the row is left out: %s becomes %s' % (n, sh(f)))
        key = st.sweep
        if full:
            if key in self.reg and self.reg[key] != (st.dir, res): raise Bad('the result of a row depends on more than its entries: %s and %s' % (self.shr(self.reg[key]), self.shr((st.dir, res))))
            self.reg[key] = (st.dir, res)
        else:
            if key not in self.reg: raise Broken('row walk of %s: no complete row seen' % self.fn.dem)
            want = self.reg[key]
            def restrict(f): return F(*((a, c) for a, c in f[1] if not ((not L and self.mentions(a, 'L')) or (not U and self.mentions(a, 'U')))))
            w = {n: restrict(f) for n, f in want[1].items()}
            w = {n: f for n, f in w.items() if not (n.startswith('scatter ') and not f[1])}
            r = {n: restrict(f) for n, f in res.items()}
            r = {n: f for n, f in r.items() if not (n.startswith('scatter ') and not f[1])}
            for n in set(w) | set(r):
                a = w.get(n, st.vecs.get(n, (None,))[0]); b = r.get(n, st.vecs.get(n, (None,))[0])
                if a != b: raise Bad('a row %s lower and %s upper entries is treated differently: %s becomes %s instead of %s' % ('with' if L else 'without', 'with' if U else 'without', n, sh(b) if b else 'unchanged', sh(a) if a else 'unchanged'))
            if st.dir != want[0]: raise Bad('rows are visited in different directions')
        st.vecs = {n: (b, None) for n, (b, c) in st.vecs.items()}
        st.scat = {}
        st.row = None; st.toks = {}
        def old(v):
            if isinstance(v, tuple) and v and v[0] in ROWVALS: return OLD
            if isinstance(v, tuple) and v and v[0] == 'rit' and v[1] == 'R': return OLD
            return v
        st.env = {k: old(v) for k, v in st.env.items()}; st.mem = {k: old(v) for k, v in st.mem.items()}
    def shr(self, r): return '%s {%s}' % (r[0], ', '.join('%s := %s' % (n, sh(f)) for n, f in sorted(r[1].items())))
    def mentions(self, a, g):
        if isinstance(a, tuple):
            if a[0] in ('S', 'part') and a[1] == g: return True
            if a[0] in ('D', 'Di', 'E', 'N'): return self.mentions(a[1], g)
        return False
    def sweepend(self, st):
        if st.open:
            st.open = False
            if st.sweep in self.reg:
                for n in self.reg[st.sweep][1]:
                    if n.startswith('scatter '): n = n[8:]
                    if n in st.vecs: st.vecs[n] = (atom(('sw', st.sweep, n)), None)
        st.dir = None
    def enter(self, st, d):
        """activate a row: one state per combination of empty / non-empty runs"""
        out = []
        for L in ((1,) if self.only11 else (0, 1)):
            for U in ((max(self.hasUs),) if self.only11 else self.hasUs):
                t = st.copy(); t.row = (L, U); t.dir = d
                out.append(t)
        return out
    # ------------------------------------------------------------------ one instruction
    def step(self, st, i):
        op = i.op
        m = getattr(self, 'i_' + op, None)
        if m: return m(st, i)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'): st.env[i.res] = self.arith(st, op, [self.val(st, o) for o in i.ops]); return
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'zext', 'sext', 'trunc', 'freeze', 'lshr'):
            st.env[i.res] = self.intop(st, op, [self.val(st, o) for o in i.ops], i); return
        raise Broken('row walk of %s: instruction %s at %s' % (self.fn.dem, op, self.m.where(i)))
    def i_alloca(self, st, i): st.env[i.res] = ('obj', i.res); st.mem.pop(i.res, None)
    def i_ret(self, st, i):
        if st.row: self.rowend(st)
        if st.open: raise Bad('the sweep ends before the last row')
        if st.empty != 1: self.finals.append((st.sweep, {n: b for n, (b, c) in st.vecs.items()}, i))
        return ('end',)
    def i_unreachable(self, st, i): return ('end',)
    def i_br(self, st, i):
        if len(i.targets) == 1: return ('goto', list(i.targets))
        c = self.val(st, i.ops[0])
        if c[0] == 'int': return ('goto', [i.targets[0] if c[1] else i.targets[1]])
        if c[0] == 'undef': raise Broken('row walk of %s: branch on an unknown value at %s' % (self.fn.dem, self.m.where(i)))
        raise Bad('the course of the sweep depends on %s' % self.show(c))
    def show(self, v): return {'F': 'a vector value', 'num': 'the damping factor', 'old': 'an index or entry of an earlier row'}.get(v[0], v[0])
    def i_select(self, st, i):
        c = self.val(st, i.ops[0])
        if c[0] != 'int': raise Broken('row walk of %s: select on %s' % (self.fn.dem, c))
        st.env[i.res] = self.val(st, i.ops[1 if c[1] else 2])
    def intop(self, st, op, a, i):
        if all(x[0] == 'int' for x in a):
            x = a[0][1]; y = a[1][1] if len(a) > 1 else 0
            bits = 1 if str(i.ty) == 'i1' else 64
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x+y, 'sub': x-y, 'mul': x*y, 'shl': x << y if 0 <= y < 64 else 0, 'lshr': x >> y if 0 <= y < 64 and x >= 0 else 0}.get(op, x)
            return ('int', r & ((1 << bits)-1) if bits == 1 else r)
        if op in ('zext', 'sext', 'trunc', 'freeze'): return a[0]
        if op in ('mul', 'shl') and a[1][0] == 'int' and a[0][0] in ('ridx', 'idx'): return ('scaled', a[0])
        if OLD in a: raise Bad('an index of an earlier row is used')
        if op in ('add', 'sub') and a[1][0] == 'int' and a[0][0] in ('idx', 'ridx', 'shift'):
            k = a[1][1] if op == 'add' else -a[1][1]
            if k >= 1 << 63: k -= 1 << 64
            b, k0 = (a[0][1], a[0][2]) if a[0][0] == 'shift' else (a[0], 0)
            return ('shift', b, k0+k) if k0+k else b
        raise Broken('row walk of %s: integer operation %s on %s at %s' % (self.fn.dem, op, a, self.m.where(i)))
    def order(self, st, v):
        if v[0] == 'ridx': return 0
        if v[0] == 'idx': return {'L': -1, 'D': 0, 'U': 1}[self.cls(st, v[1])]
        return None
    def i_icmp(self, st, i):
        a, b = [self.val(st, o) for o in i.ops]
        p = i.pred
        if a[0] == 'int' and b[0] == 'int': x, y = a[1], b[1]
        else:
            if OLD in (a, b): raise Bad('an index of an earlier row is compared')
            if 'shift' in (a[0], b[0]):
                (x, kx), (y, ky) = [(v[1], v[2]) if v[0] == 'shift' else (v, 0) for v in (a, b)]
                if x == OLD or y == OLD: raise Bad('an index of an earlier row is compared')
                x, y = self.order(st, x), self.order(st, y)
                if x is None or y is None or (x and y): raise Broken('row walk of %s: comparison of %s and %s' % (self.fn.dem, a, b))
                inf = 1 << 70
                lo, hi = (-inf if x < 0 or y > 0 else x), (inf if x > 0 or y < 0 else x)
                if y > 0: hi = -1
                elif y < 0: lo = 1
                elif x < 0: hi = -1
                elif x > 0: lo = 1
                lo += kx-ky; hi += kx-ky
                q = p[1:] if p[0] in 'us' else p
                t = {'lt': hi < 0, 'le': hi <= 0, 'gt': lo > 0, 'ge': lo >= 0, 'eq': lo == hi == 0, 'ne': lo > 0 or hi < 0}[q]
                f = {'lt': lo >= 0, 'le': lo > 0, 'gt': hi <= 0, 'ge': hi < 0, 'eq': lo > 0 or hi < 0, 'ne': lo == hi == 0}[q]
                if not t and not f: raise Bad('the course of the sweep depends on the distance of an entry from the diagonal')
                st.env[i.res] = ('int', int(t)); return
            x, y = self.order(st, a), self.order(st, b)
            if x is None or y is None:
                if a == b and p in ('eq', 'ne'): st.env[i.res] = ('int', int(p == 'eq')); return
                raise Broken('row walk of %s: comparison of %s and %s at %s' % (self.fn.dem, a, b, self.m.where(i)))
            if x == y and x != 0 and a != b: raise Broken('row walk: comparison of two entries of one run at %s' % self.m.where(i))
        r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'slt': x < y, 'ugt': x > y, 'sgt': x > y, 'ule': x <= y, 'sle': x <= y, 'uge': x >= y, 'sge': x >= y}[p]
        st.env[i.res] = ('int', int(r))
    def i_getelementptr(self, st, i):
        a = [self.val(st, o) for o in i.ops]
        if all(x == ('int', 0) for x in a[1:]): st.env[i.res] = a[0]; return
        if a[0][0] == 'dvecdata':
            x = a[1][1] if a[1][0] == 'scaled' else a[1]
            if x[0] in ('ridx', 'idx', 'old'): st.env[i.res] = ('dent', a[0][1], x); return
        if a[0][0] in ('obj', 'dvecobj') and all(x[0] == 'int' for x in a[1:]): st.env[i.res] = ('sub',) + a[0][1:] + tuple(x[1] for x in a[1:]); return
        raise Broken('row walk of %s: address computation at %s: %s' % (self.fn.dem, self.m.where(i), a))
    def i_load(self, st, i):
        p = self.val(st, i.ops[0])
        if p[0] == 'dvecobj': st.env[i.res] = ('dvecdata', p[1]); return
        if p[0] == 'obj':
            st.env[i.res] = st.mem.get(p[1], ('undef', p[1])); return
        if p[0] == 'ent': st.env[i.res] = ('entval', p[1]); return
        if p[0] == 'dent':
            if not self.isrow(st, p[2]): raise Bad('the stored diagonal of another row is used')
            st.env[i.res] = ('dentval', p[1]); return
        if p[0] == 'vref':
            st.env[i.res] = self.rd(st, p); return
        if p == OLD: raise Bad('an entry of an earlier row is used')
        raise Broken('row walk of %s: load from %s at %s' % (self.fn.dem, p, self.m.where(i)))
    def i_store(self, st, i):
        v, p = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if p[0] == 'obj': st.mem[p[1]] = v; return
        if p[0] in ('vref', 'ent') or p == OLD:
            self.wrt(st, p, v); return
        raise Broken('row walk of %s: store to %s at %s' % (self.fn.dem, p, self.m.where(i)))
    # ------------------------------------------------------------------ vector entries
    def isrow(self, st, idx): return idx[0] == 'ridx' or (idx[0] == 'idx' and self.cls(st, idx[1]) == 'D')
    def rd(self, st, p):
        """value behind a pointer: formula, or ('nb', token, value) for a neighbour"""
        if p[0] == 'obj':
            v = st.mem.get(p[1])
            if v is None: raise Bad('a value is used before it is set')
            return v
        if p == OLD: raise Bad('a component belonging to an earlier row is used')
        if p[0] == 'vref':
            vec, idx = p[1], p[2]
            if idx == OLD: raise Bad('a component belonging to an earlier row is used')
            base, cur = st.vecs[vec]
            if idx[0] == 'int':
                return atom(('component', vec, idx[1]))
            if self.isrow(st, idx): return cur if cur is not None else base
            c = self.cls(st, idx[1])
            done = (c == 'L') == (st.dir == 'asc')
            return ('nb', idx[1], ('P', st.sweep, vec) if done and vec not in self.ro else base, vec)
        if p[0] == 'ent': return ('entval', p[1])
        raise Broken('row walk of %s: operand %s' % (self.fn.dem, p))
    def frm(self, v):
        if v[0] == 'F': return v
        if v[0] == 'num' and v[1] == ZERO: return F()
        if v[0] == 'nb': raise Bad('a neighbour value is used without its matrix entry')
        if v[0] == 'undef': raise Bad('a value is used before it is set')
        raise Broken('row walk of %s: %s is not a vector value' % (self.fn.dem, v))
    def wrt(self, st, p, v):
        if p[0] == 'obj': st.mem[p[1]] = v; return
        if p == OLD: raise Bad('a component or entry of an earlier row is written')
        if p[0] == 'ent': raise Bad('a matrix entry is written')
        if p[0] == 'dent': raise Bad('a stored diagonal is written')
        if p[0] == 'vref':
            vec, idx = p[1], p[2]
            if vec in self.ro: raise Bad('the right-hand side is modified')
            if idx == OLD: raise Bad('a component of an earlier row is written')
            if idx[0] == 'int': raise Bad('component %d is written' % idx[1])
            if not self.isrow(st, idx):
                if v[0] == 'nbupd' and v[1] == vec and v[2] == idx[1] == v[3]: return self.scatterv(st, vec, idx, v[3], v[4], v[5])
                raise Bad('a component of another row is overwritten')
            st.vecs[vec] = (st.vecs[vec][0], v if v[0] != 'num' else self.frm(v)); return
        raise Broken('row walk of %s: target %s' % (self.fn.dem, p))
    def product(self, st, tgt, t, nb, c, f):
        """f + c * entry(t) * neighbour, in the formula f"""
        if nb[1] != t: raise Bad('a matrix entry is combined with a component that does not belong to its column')
        g = self.cls(st, t); first = st.toks[t][1]
        prev = ('part', g, nb[2], ('prev', t)); now = ('part', g, nb[2], t)
        have = dict(f[1])
        for a in have:
            if isinstance(a, tuple) and a[0] == 'part' and a[1] == g and a[3] == t: raise Bad('an entry is used twice')
        if first:
            return fadd(f, F((now, c)))
        if prev not in have: raise Bad('entries of the run are left out before this one')
        if have[prev] != c: raise Bad('entries of one run enter with different factors')
        return F(*[(a, k) for a, k in f[1] if a != prev], (now, c))
    def arith(self, st, op, a):
        if OLD in a: raise Bad('a value of an earlier row is used')
        if op == 'fneg':
            if a[0][0] == 'num': return ('num', pmul(a[0][1], (-1, 0)))
            if a[0][0] == 'prod': return ('prod', a[0][1], a[0][2], pmul(a[0][3], (-1, 0)))
            return fscale(self.frm(a[0]), (-1, 0))
        x, y = a
        if x[0] == 'num' and y[0] == 'num':
            if op == 'fadd': return ('num', (x[1][0]+y[1][0], x[1][1]+y[1][1]))
            if op == 'fsub': return ('num', (x[1][0]-y[1][0], x[1][1]-y[1][1]))
            if op == 'fmul': return ('num', pmul(x[1], y[1]))
            return ('num', (x[1][0]/y[1][0], x[1][1]/y[1][0])) if y[1][1] == 0 and y[1][0] else ('undef', 'quotient')
        if op == 'fmul':
            if x == ('num', ZERO): x = F()
            if y == ('num', ZERO): y = F()
            for p, q in ((x, y), (y, x)):
                if p[0] == 'entval' and q[0] == 'nb': return ('prod', p[1], q, ONE)
                if p[0] == 'entval' and q[0] == 'F':
                    if self.cls(st, p[1]) != 'D': return ('tprod', p[1], q, ONE)
                    return dapp('D', q)
                if p[0] == 'dentval' and q[0] == 'F': return dapp('E', q)
                if p[0] == 'num':
                    if q[0] == 'tprod': return ('tprod', q[1], q[2], pmul(q[3], p[1]))
                    if q[0] == 'prod': return ('prod', q[1], q[2], pmul(q[3], p[1]))
                    if q[0] == 'F': return fscale(q, p[1])
        if op == 'fdiv' and y[0] == 'entval':
            if self.cls(st, y[1]) != 'D': raise Bad('division by an off-diagonal entry')
            return dapp('Di', self.frm(x))
        if op in ('fadd', 'fsub'):
            s = ONE if op == 'fadd' else (-1, 0)
            if y[0] == 'tprod' and x[0] == 'nb': return ('nbupd', x[3], x[1], y[1], y[2], pmul(y[3], s))
            if x[0] == 'tprod' and y[0] == 'nb' and op == 'fadd': return ('nbupd', y[3], y[1], x[1], x[2], x[3])
            if 'tprod' in (x[0], y[0]): raise Bad('an off-diagonal entry is combined with a component that does not belong to its column')
            if y[0] == 'prod': return self.product(st, None, y[1], y[2], pmul(y[3], s), self.frm(x))
            if x[0] == 'prod': return self.product(st, None, x[1], x[2], x[3], fscale(self.frm(y), s))
            return fadd(self.frm(x), self.frm(y), s)
        raise Broken('row walk of %s: %s of %s' % (self.fn.dem, op, a))
    # ------------------------------------------------------------------ calls
    def i_invoke(self, st, i):
        r = self.i_call(st, i)
        if r is not None and r[0] == 'end': return r
        if r is not None: raise Broken('fork at an invoke')
        return ('goto', [i.normal])
    def i_call(self, st, i):
        nm = i.callee.v if i.callee is not None and i.callee.kind == 'global' else None
        if nm is None: raise Broken('row walk of %s: indirect call at %s' % (self.fn.dem, self.m.where(i)))
        if nm.startswith('llvm.'):
            if nm.startswith('llvm.fmuladd'):
                a = [self.val(st, o) for o in i.ops]
                st.env[i.res] = self.arith(st, 'fadd', [self.arith(st, 'fmul', a[:2]), a[2]])
            return
        dem = self.m.dem.get(nm, nm)
        h = head(dem); a = [self.val(st, o) for o in i.ops]
        self.opnames.add(h)
        return self.call(st, i, h, dem, a)
    def call(self, st, i, h, dem, a):
        x = re.match(r'vt::(Iter|Row|Mat|RVec|VE|ME)\b', dem[dem.find('vt::'):] if not dem.startswith('vt::') else dem)
        kind = h.split('::')[-2] if '::' in h else ''; op = h.split('::')[-1]
        it = 'vt::Iter<' in dem.split('(')[0]
        if it: return self.iterop(st, i, op, dem, a)
        if kind in ('Row', 'DRow'): return self.rowop(st, i, op, a)
        if kind in ('Mat', 'DMat'): return self.matop(st, i, op, a)
        if kind in ('RVec', 'DVec'): return self.vecop(st, i, op, dem, a)
        if kind == 'VE': return self.veop(st, i, op, dem, a)
        if kind == 'ME': return self.meop(st, i, op, dem, a)
        x = re.search(r'algmeta_(itsteps|btsolve|bdsolve)<1, ([^>]*)>', dem)
        if x: return self.inner(st, i, x.group(1), x.group(2), op.split('<')[0], a)
        raise Broken('row walk of %s: call of %s at %s' % (self.fn.dem, dem, self.m.where(i)))
    def iterop(self, st, i, op, dem, a):
        def get(p):
            if p[0] != 'obj': raise Broken('row walk: iterator at %s' % (p,))
            v = st.mem.get(p[1])
            if v is None: raise Bad('an iterator is used before it is set')
            if v == OLD: raise Bad('an iterator of an earlier row is used')
            return v
        if op in ('Iter', '~Iter'):
            if op == '~Iter': st.mem.pop(a[0][1], None); return
            if len(a) == 1: st.mem.pop(a[0][1], None); return
            st.mem[a[0][1]] = get(a[1]); return
        if op == 'operator=': st.mem[a[0][1]] = get(a[1]); st.env[i.res] = a[0]; return
        if op in ('operator==', 'operator!='):
            x, y = get(a[0]), get(a[1])
            if x[0] != y[0]: raise Broken('iterators of different kind compared')
            if x[0] == 'rit':
                fx, fy = x[1], y[1]
                if fx in 'EB' and fy in 'EB': eq = fx == fy
                elif fx in 'EB' or fy in 'EB': eq = False
                elif fx == fy == 'R' or x == y: eq = True
                else: raise Broken('comparison of row iterators %s %s' % (x, y))
                if (fx in 'EB' and fy in 'EB' and fx != fy): raise Bad('an iterator past one end is compared with the other end')
                # walking up is never stopped by the lower end and vice versa
                for u, w in ((x, y), (y, x)):
                    if u[1] in ('R', 'first', 'next') and ((u[2] == 'asc' and w[1] == 'B') or (u[2] == 'desc' and w[1] == 'E')) : raise Bad('the sweep is compared with the wrong end')
            else:
                if x[1] in ('E', 'B') and y[1] in ('E', 'B') and x[1] != y[1]: raise Bad('an iterator past one end of the row is compared with the other end')
                eq = x == y
            st.env[i.res] = ('int', int(eq == (op == 'operator=='))); return
        p = a[1] if op in ('operator++', 'operator--') and len(a) == (3 if False else 2) and '(int)' not in dem else a[0]
        if op in ('operator++', 'operator--') and dem.rstrip().endswith('(int)'):
            tmp, p = a[0], a[1]
            st.mem[tmp[1]] = get(p)
        elif op in ('operator++', 'operator--'): p = a[0]
        v = get(p)
        if v[0] == 'rit':
            if op in ('index', 'operator*', 'operator->', 'operatorARROW'):
                if v[1] in 'EB': raise Bad('a row past the end is accessed')
                if v[1] in ('first', 'next'):
                    if v[1] == 'first' and st.open: raise Bad('a sweep begins before the previous one is complete')
                    if st.row: raise Bad('a second row is entered while one is in progress')
                    out = []
                    for t in self.enter(st, v[2]):
                        if v[1] == 'first': t.sweep += 1; t.open = True
                        t.mem[p[1]] = ('rit', 'R', v[2])
                        out.append((t, False))
                    return ('fork', out)
                st.env[i.res] = ('ridx',) if op == 'index' else ('row',)
                return
            if op in ('operator++', 'operator--'):
                up = op == 'operator++'
                if v[1] in 'EB': raise Bad('a row iterator is moved past the end')
                if up != (v[2] == 'asc'): raise Bad('the row iterator is moved against the direction of the sweep')
                if v[1] in ('first', 'next'): raise Bad('a row is passed without being treated')
                self.rowend(st)
                if i.res: st.env[i.res] = p
                t = st.copy()
                st.mem[p[1]] = ('rit', 'next', v[2])
                t.mem[p[1]] = ('rit', 'E' if up else 'B', v[2]); self.sweepend(t)
                return ('fork', [(st, True), (t, True)])
        else:
            t = v[1]
            if op in ('index', 'operator*', 'operator->', 'operatorARROW'):
                if t in ('E', 'B'): raise Bad('an entry past the end of the row is accessed')
                st.env[i.res] = ('idx', t) if op == 'index' else ('ent', t); return
            if op in ('operator++', 'operator--'):
                if t in ('E', 'B'): raise Bad('a column iterator is moved past the end of the row')
                if i.res: st.env[i.res] = p
                return self.advance(st, p, t, op == 'operator++')
        raise Broken('row walk of %s: iterator operation %s' % (self.fn.dem, dem))
    def advance(self, st, p, t, up):
        L, U = st.row
        def put(s, x): s.mem[p[1]] = ('cit', x)
        c = self.cls(st, t)
        if c == 'D':
            run = 'U' if up else 'L'
            if (U if up else L): put(st, self.newtok(st, run, True))
            else: put(st, 'E' if up else 'B')
            return None
        inward = (c == 'L') == up   # moves towards / past the diagonal
        first = st.toks[t][1]
        if first is None: raise Broken('row walk: direction of a scan reversed')
        s2 = st.copy()
        # stay in the run
        n = self.newtok(s2, c, False)
        def ren(x):
            if isinstance(x, tuple):
                if x and x[0] == 'part' and x[1] == c:
                    if x[3] == t: return ('part', x[1], x[2], ('prev', n))
                    if x[3] == ('prev', t): return ('bad',)
                return tuple(ren(y) for y in x)
            return x
        s2.mapvals(ren); put(s2, n)
        # leave the run
        s3 = st
        def fin(x):
            if isinstance(x, tuple):
                if x and x[0] == 'part' and x[1] == c:
                    if x[3] == t: return ('S', x[1], x[2])
                    if x[3] == ('prev', t): return ('bad',)
                    return x
                return tuple(fin(y) for y in x)
            return x
        s3.mapvals(fin)
        def norm(v):
            if isinstance(v, tuple) and v and v[0] == 'F': return F(*v[1])
            return v
        s3.mapvals(norm)
        if c == 'L': put(s3, 'D' if up else 'B')
        else: put(s3, 'E' if up else 'D')
        return ('fork', [(s2, True), (s3, True)])
    def rowop(self, st, i, op, a):
        if op in ('begin', 'end', 'beforeBegin', 'beforeEnd', 'find'):
            r = a[1]
            if r == OLD: raise Bad('an earlier row is accessed')
            if r[0] != 'row': raise Broken('row walk: %s of %s' % (op, r))
            d = a[0][1]; L, U = st.row
            if op == 'end': v = 'E'
            elif op == 'beforeBegin': v = 'B'
            elif op == 'begin': v = self.newtok(st, 'L', True) if L else 'D'
            elif op == 'beforeEnd': v = self.newtok(st, 'U', True) if U else 'D'
            else:
                if not (a[2][0] == 'ridx' or (a[2][0] == 'idx' and self.cls(st, a[2][1]) == 'D')): raise Bad('an entry other than the diagonal one is looked up')
                v = 'D'
            st.mem[d] = ('cit', v); return
        if op == 'operator[]':
            if a[0] == OLD or a[1] == OLD: raise Bad('an earlier row is accessed')
            if self.isrow(st, a[1]): st.env[i.res] = ('ent', 'D'); return
        raise Broken('row walk of %s: row operation %s at %s' % (self.fn.dem, op, self.m.where(i)))
    def matop(self, st, i, op, a):
        if op in ('begin', 'beforeEnd'):
            d = 'asc' if op == 'begin' else 'desc'; out = []
            for e in ((0, 1) if st.empty is None else (st.empty,)):
                t = st.copy(); t.empty = e
                t.mem[a[0][1]] = ('rit', 'first', d) if not e else ('rit', 'E' if d == 'asc' else 'B', d)
                out.append((t, True))
            return ('fork', out)
        if op in ('end', 'beforeBegin'): st.mem[a[0][1]] = ('rit', 'E' if op == 'end' else 'B', None); return
        if op == 'operator[]':
            if a[1] == OLD: raise Bad('a row is looked up with an index of an earlier row')
            if st.row and self.isrow(st, a[1]): st.env[i.res] = ('row',); return
        raise Broken('row walk of %s: matrix operation %s at %s' % (self.fn.dem, op, self.m.where(i)))
    def vecname(self, st, p):
        if p[0] == 'vec': return p[1]
        if p[0] == 'obj': return p[1]
        raise Broken('row walk of %s: vector %s' % (self.fn.dem, p))
    def vecop(self, st, i, op, dem, a):
        n = self.vecname(st, a[0])
        if op == 'operator[]':
            if n not in st.vecs: raise Bad('a vector is used before it is set')
            if a[1][0] == 'int':
                if st.empty != 0: raise Bad('component %d of a possibly empty vector is accessed' % a[1][1])
            elif a[1] != OLD and a[1][0] not in ('ridx', 'idx'): raise Broken('row walk of %s: component %s' % (self.fn.dem, a[1]))
            st.env[i.res] = ('vref', n, a[1]); return
        if op in ('RVec', '~RVec', 'DVec', '~DVec'):
            if op[0] == '~': st.vecs.pop(n, None); return
            st.vecs[n] = (F(), None) if len(a) == 1 else (st.vecs[self.vecname(st, a[1])][0], None)
        else:
            if n in self.ro: raise Bad('the right-hand side is modified')
            if st.open: raise Bad('a whole vector is changed while rows are still to be treated')
            old = st.vecs[n][0]
            def src(k): return st.vecs[self.vecname(st, a[k])][0]
            if op == 'operator=': new = fscale(atom('one'), a[1][1]) if a[1][0] == 'num' else src(1)
            elif op == 'operator+=': new = fadd(old, src(1))
            elif op == 'operator-=': new = fadd(old, src(1), (-1, 0))
            elif op == 'operator*=': new = fscale(old, a[1][1])
            elif op == 'axpy': new = fadd(old, src(2), a[1][1])
            else: raise Broken('row walk of %s: vector operation %s' % (self.fn.dem, op))
            if op == 'operator=' and a[1] == ('num', ZERO): new = F()
            st.vecs[n] = (new, None)
            if i.res: st.env[i.res] = a[0]
    def veop(self, st, i, op, dem, a):
        if op == '~VE': return
        if op == 'VE':
            if len(a) == 2 and a[1][0] == 'num': self.wrt(st, a[0], self.num2f(a[1])); return
            if len(a) == 1: st.mem.pop(a[0][1], None)
            else: self.wrt(st, a[0], self.frmnb(self.rd(st, a[1])) if a[1][0] != 'num' else self.num2f(a[1]))
            return
        if op == 'operator=': v = self.num2f(a[1]) if a[1][0] == 'num' else self.frmnb(self.rd(st, a[1]))
        elif op == 'operator+=': v = fadd(self.frm(self.rd(st, a[0])), self.frm(self.rd(st, a[1])))
        elif op == 'operator-=': v = fadd(self.frm(self.rd(st, a[0])), self.frm(self.rd(st, a[1])), (-1, 0))
        elif op == 'operator*=': v = fscale(self.frm(self.rd(st, a[0])), self.coef(a[1]))
        elif op == 'axpy': v = fadd(self.frm(self.rd(st, a[0])), self.frm(self.rd(st, a[2])), self.coef(a[1]))
        else: raise Broken('row walk of %s: vector entry operation %s' % (self.fn.dem, dem))
        self.wrt(st, a[0], v)
        if i.res: st.env[i.res] = a[0]
    def coef(self, v):
        if v[0] != 'num': raise Broken('row walk of %s: factor %s' % (self.fn.dem, v))
        return v[1]
    def num2f(self, v): return F() if v[1] == ZERO else F(('one', v[1]))
    def frmnb(self, v):
        return v if v[0] == 'nb' else self.frm(v)
    def meop(self, st, i, op, dem, a):
        e = a[0]
        if e == OLD: raise Bad('an entry of an earlier row is used')
        if op == 'solve':
            self.diagonal(st, e)
            f = dapp('Di', self.frm(self.rd(st, a[2])))
            self.wrt(st, a[1], f); return
        if op in ('mv', 'umv', 'mmv', 'usmv', 'mtv', 'umtv', 'mmtv', 'usmtv'):
            us = op.startswith('us'); c = self.coef(a[1]) if us else {'u': ONE, 'm': ONE}[op[0]]
            if op in ('mmv', 'mmtv'): c = (-1, 0)
            src, dst = a[-2], a[-1]
            if 'tv' in op and op not in ('mv',):
                if dst[0] != 'vref' or e[0] != 'ent': raise Broken('row walk of %s: %s' % (self.fn.dem, dem))
                return self.scatter(st, e, src, dst, c, op == 'mtv')
            s = self.rd(st, src)
            assign = op == 'mv'
            if e[0] == 'dent':
                if not self.isrow(st, e[2]): raise Bad('the stored diagonal of another row is used')
                f = dapp('E', self.frm(s))
                old = F() if assign else self.frm(self.rd(st, dst))
                if assign and src == dst: raise Bad('a product is written over its own operand')
                self.wrt(st, dst, fadd(old, f, c)); return
            if e[0] != 'ent': raise Broken('row walk of %s: matrix %s' % (self.fn.dem, e))
            old = F() if assign else self.frm(self.rd(st, dst))
            if src == dst: raise Bad('a product is written over its own operand')
            if self.cls(st, e[1]) == 'D':
                if s[0] == 'nb': raise Bad('the diagonal entry is combined with a component of another row')
                f = fadd(old, dapp('D', self.frm(s)), c)
            else:
                if s[0] != 'nb': raise Bad('an off-diagonal entry is combined with a component that does not belong to its column')
                f = self.product(st, dst, e[1], s, c, old)
            self.wrt(st, dst, f); return
        if op in ('ME', '~ME', 'operator=', 'invert', 'operator+=', 'operator-=', 'operator*=', 'leftmultiply', 'rightmultiply'): raise Bad('a matrix entry is changed')
        raise Broken('row walk of %s: entry operation %s' % (self.fn.dem, dem))
    def inner(self, st, i, fam, targs, op, a):
        """one sweep (itsteps) or solve (btsolve, bdsolve) of the next level with the diagonal block"""
        if a[0] == OLD: raise Bad('an entry of an earlier row is used')
        if op not in self.fn.dem: raise Bad('the diagonal block is treated by %s' % op)
        if fam != 'itsteps':
            n = re.match(r'k_(u?)b[ldu]t?solve(0?)', self.fn.dem)
            if n and bool(n.group(2)) == targs.endswith('1'): raise Bad('the next level is solved %s damping' % ('with' if n.group(2) else 'without'))
            if n and fam == 'btsolve' and bool(n.group(1)) == ('WithDiagType)1' in targs): raise Bad('the next level is solved %s its diagonal' % ('with' if n.group(1) else 'without'))
        self.diagonal(st, a[0])
        w = a[3] if a[3][0] != 'obj' else st.mem.get(a[3][1])
        if w != ('num', (0, 1)) and w != ('num', ONE) and w != ('p', 3): raise Bad('the next level is called with another damping factor')
        rhs = self.frm(self.rd(st, a[2]))
        f = dapp('N', rhs)
        if fam == 'itsteps':
            s = self.frm(self.rd(st, a[1]))
            f = fadd(fadd(s, f), dapp('N', dapp('D', s)), (-1, 0))
        self.wrt(st, a[1], f)
    def diagonal(self, st, e):
        if e[0] != 'ent': raise Broken('row walk of %s: solve with %s' % (self.fn.dem, e))
        if self.cls(st, e[1]) != 'D': raise Bad('an off-diagonal entry is used as the diagonal')
    def scatter(self, st, e, src, dst, c, assign):
        vec, idx = dst[1], dst[2]
        if assign: raise Bad('a component of another row is overwritten')
        if vec in self.ro: raise Bad('the right-hand side is modified')
        g = self.cls(st, e[1])
        if g == 'D': raise Broken('transposed product with the diagonal entry')
        if idx[0] != 'idx' or idx[1] != e[1]: raise Bad('a matrix entry is combined with a component that does not belong to its column')
        return self.scatterv(st, vec, idx, e[1], self.frm(self.rd(st, src)), c)
    def scatterv(self, st, vec, idx, t, v, c):
        if vec in self.ro: raise Bad('the right-hand side is modified')
        g = self.cls(st, t)
        if (g == 'L') == (st.dir == 'asc'): raise Bad('a row that is already finished is changed')
        val = ('cur', v)
        f = st.scat.get(vec, F())
        f = self.product(st, None, t, ('nb', t, val, vec), c, f)
        st.scat[vec] = f

def canon(w, vec='x'):
    """value of vec after the kernel, and the definitions of the updated neighbours it refers to, independent of how the
    kernel distributes the work over sweeps and temporary vectors"""
    fin = {}
    for k, f, i in w.finals: fin[f[vec]] = i
    if len(fin) != 1: raise Bad('the result depends on the path taken: %s' % '; '.join(sh(f) for f in fin))
    ids = {}; defs = []; todo = []
    def val(v):
        if isinstance(v, tuple) and v and v[0] == 'F': return ex(v)
        if isinstance(v, tuple) and v and v[0] == 'cur': return ('cur', ex(v[1]))
        if isinstance(v, tuple) and v and v[0] == 'P':
            k = (v[1], v[2])
            if k not in ids: ids[k] = len(ids)+1; todo.append(k)
            return ('P', ids[k])
        raise Broken('row walk: %s' % (v,))
    def at(a):
        if isinstance(a, tuple):
            if a[0] == 'sw':
                r = w.reg[a[1]][1]
                if a[2] in r: return ex(r[a[2]])
                return atom(('scattered', w.reg[a[1]][0], ex(r['scatter ' + a[2]])))
            if a[0] in ('D', 'Di', 'E', 'N'): return dapp(a[0], at(a[1]))
            if a[0] == 'S': return atom(('S', a[1], val(a[2])))
        return atom(a)
    def ex(f):
        r = F()
        for a, c in f[1]: r = fadd(r, at(a), c)
        return r
    try:
        res = ex(list(fin)[0])
        while todo:
            k = todo.pop(0); defs.append(ex(w.reg[k[0]][1][k[1]]))
    except Broken as e:
        if 'damping' in str(e): raise Bad('the damping factor is applied twice')
        raise
    return res, defs
def shc(c): return sh(c[0]) + ''.join('\n      where updated %d = %s' % (n+1, sh(d)) for n, d in enumerate(c[1]))
