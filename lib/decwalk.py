"""Factorisations on opaque rows: the row walk with iterators into the current row and into the rows of its lower entries.

A row is a linear order  B .. tokens .. D .. tokens .. E  whose gaps are known to be empty (0), non-empty (+) or unknown (?).
Tokens are materialised where an iterator points; moving an iterator over an unknown gap forks.  Indices of different rows are
compared through recorded relations; an undetermined comparison forks into smaller / equal / greater.  A specification object
receives every change of an entry and every row lookup and accepts it only if the elimination it belongs to is complete up to there."""
import re
import rowwalk as R
from rowwalk import Walk, State, Bad, Skip, OLD
from harness import Broken

ONEV = ('V', (((), 1),))
def vsum(ts):
    d = {}
    for f, c in ts: d[f] = d.get(f, 0) + c
    return ('V', tuple(sorted(((f, c) for f, c in d.items() if c), key=repr)))
def vadd(a, b, s=1): return vsum(list(a[1]) + [(f, s*c) for f, c in b[1]])
def vmul(a, b, comm):
    return vsum([(tuple(sorted(f+g, key=repr)) if comm else f+g, c*k) for f, c in a[1] for g, k in b[1]])
def vatom(*a): return ('V', ((((a),), 1),))

class DState(State):
    def __init__(s):
        super().__init__(); s.rows = {}; s.rel = {}; s.sp = {}; s.stat = {}; s.prev = None
    def copy(s):
        t = DState(); t.__dict__.update(s.__dict__)
        for k in ('env', 'mem', 'toks', 'vecs', 'scat', 'rows', 'rel', 'sp', 'stat'): setattr(t, k, dict(getattr(s, k)))
        return t
    def mapall(s, f):
        for d in (s.env, s.mem, s.sp): 
            for k in d: d[k] = f(d[k])
        s.stat = {f(k): v for k, v in s.stat.items()}
        s.rel = {f(k): v for k, v in s.rel.items()}
        s.rows = {f(k): (tuple(f(x) for x in it), g) for k, (it, g) in s.rows.items()}
    def key(s):
        # drop what nothing refers to, name tokens by position
        refs = set()
        def walk(x):
            if isinstance(x, (tuple, frozenset)):
                if len(x) == 2 and isinstance(x, tuple) and x[0] == 'tk': refs.add(x)
                else:
                    for y in x: walk(y)
        for d in (s.env, s.mem):
            for v in d.values(): walk(v)
        held = set(refs) | {s.sp.get('P'), s.sp.get('Q')}
        for v in s.sp.values(): walk(v)
        keep = set(refs)
        def ok(k): return all(x in held or not isinstance(x, tuple) for x in (k[0], k[2]))
        lost = {k[1] for k in s.rel if not ok(k)}
        for tag in lost:
            # what the relation to a forgotten entry says about the remaining ones
            if tag not in s.rows or 'i' not in s.rows: continue
            for a in s.rows['i'][0]:
                for b in s.rows[tag][0]:
                    if (a in held or a == 'D') and b in held and (a, tag, b) not in s.rel:
                        r = s.walk.cmp(s, ('i', a), (tag, b))
                        if r is not None: s.rel[(a, tag, b)] = r
        for tag in list(s.rows):
            if tag != 'i' and tag[1] not in keep: del s.rows[tag]
        for tag in list(s.rows):
            it, g = list(s.rows[tag][0]), list(s.rows[tag][1])
            n = 1
            while n < len(it)-1:
                if it[n] not in ('D', 'M') and it[n] not in keep:
                    g[n-1:n+1] = ['?']; del it[n]
                else: n += 1
            s.rows[tag] = (tuple(it), tuple(g))
        def forget(tag, fr):
            it, g = s.rows[tag]
            p = min([it.index(x) for x in fr if x in it] or [len(it)])
            s.rows[tag] = (it, tuple('?' if 0 < n < p else x for n, x in enumerate(g)))
        if 'i' in s.rows: forget('i', [s.sp.get(k) for k in ('F', 'P', 'F2')] if 'F2' not in s.sp else [s.sp['F2']])
        for tag in s.rows:
            if tag != 'i': forget(tag, [s.sp.get('Q')] if tag[1] == s.sp.get('act') else [])
        s.rel = {k: v for k, v in s.rel.items() if ok(k)}
        alive = {(tag, x) for tag, (it, g) in s.rows.items() for x in it}
        s.rel = {k: v for k, v in s.rel.items() if (('i', k[0]) in alive) and ((k[1], k[2]) in alive)}
        s.stat = {k: v for k, v in s.stat.items() if k in alive}
        ren = {}
        if 'i' in s.rows:
            for n, x in enumerate(s.rows['i'][0]):
                if isinstance(x, tuple): ren[x] = ('tk', n)
        for tag in sorted((t for t in s.rows if t != 'i'), key=lambda t: ren.get(t[1], (0, 99))[1]):
            for n, x in enumerate(s.rows[tag][0]):
                if isinstance(x, tuple): ren[x] = ('tk', 1000*(1+ren[tag[1]][1])+n)
        def rn(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'tk': return ren.get(x, ('tk', -1))
                return tuple(rn(y) for y in x)
            if isinstance(x, frozenset): return frozenset(rn(y) for y in x)
            return x
        s.mapall(rn)
        s.ntok += 1
        return (tuple(sorted(s.env.items())), tuple(sorted(s.mem.items())), tuple(sorted(s.rows.items(), key=repr)), tuple(sorted(s.rel.items(), key=repr)),
                tuple(sorted(s.sp.items())), tuple(sorted(s.stat.items(), key=repr)), s.row, s.sweep, s.open, s.empty, s.dir, s.prev)

class DecWalk(Walk):
    maxlen = 7
    def __init__(self, m, fn, roles, spec, comm):
        self.spec = spec; self.comm = comm; self.nt = 5000
        super().__init__(m, fn, roles)
    def mkstate(self):
        s = DState(); s.walk = self; self.spec.start(s); return s
    # ---- rows
    def enter(self, st, d):
        out = []
        for D in ((1,) if self.only11 or st.prev == 'alldiag' else (0, 1)):
            t = st.copy(); t.row = (D,); t.dir = d
            t.rows = {'i': (('B', 'D' if D else 'M', 'E'), ('?', '?'))}; t.rel = {}; t.stat = {}
            self.spec.rowstart(self, t)
            out.append(t)
        return out
    def rowend(self, st):
        if not st.row[0]: raise Bad('a row without diagonal entry is accepted')
        if st.sp.get('zeroed') is not None: raise Bad('an entry is set to zero')
        self.spec.rowend(self, st)
        st.row = None; st.rows = {}; st.rel = {}; st.stat = {}
        def old(v):
            if isinstance(v, tuple) and v and v[0] in ('ridx', 'idx', 'ent', 'row', 'cit', 'V', 'dent', 'shift'): return OLD
            if isinstance(v, tuple) and v and v[0] == 'rit' and v[1] == 'R': return OLD
            return v
        st.env = {k: old(v) for k, v in st.env.items()}; st.mem = {k: old(v) for k, v in st.mem.items()}
    def sweepend(self, st):
        st.open = False; st.prev = 'alldiag'; st.dir = None
        self.spec.sweepend(self, st)
    def i_ret(self, st, i):
        if st.row: self.rowend(st)
        if st.open: raise Bad('the factorisation ends before the last row')
        if st.empty != 1: self.spec.finish(self, st)
        self.finals.append((st.sweep, {}, i))
        return ('end',)
    # ---- order
    def loc(self, st, v):
        """(row, item) of an index value"""
        if v == OLD: raise Bad('an index of an earlier row is used')
        if v[0] == 'ridx': return ('i', self.dg(st))
        if v[0] == 'idx': return (v[1], v[2])
        return None
    def dg(self, st): return 'D' if st.row[0] else 'M'
    def posn(self, st, x):
        tag, it = x
        if tag not in st.rows: raise Broken('row %s is gone' % (tag,))
        items = st.rows[tag][0]
        if it == 'M' and 'M' not in items: it = 'D'
        if it not in items: raise Broken('position lost')
        return items.index(it)
    def cmp(self, st, x, y):
        if x[0] == y[0]:
            a, b = self.posn(st, x), self.posn(st, y)
            return (a > b) - (a < b)
        if x[0] != 'i':
            r = self.cmp(st, y, x)
            return None if r is None else -r
        if y[0] == 'i': raise Broken('order')
        t = y[0][1]
        s1 = self.cmp(st, x, ('i', t)); s2 = self.cmp(st, y, (y[0], 'D'))
        if s1 == 0: return -s2
        if s2 == 0: return s1
        if s1 < 0 < s2: return -1
        if s2 < 0 < s1: return 1
        for (a, tag, b), r in st.rel.items():
            if tag != y[0]: continue
            ca = self.cmp(st, x, ('i', a)); cb = self.cmp(st, (tag, b), y)
            # x ? a   b ? y,  a r b
            if ca <= 0 and r <= 0 and cb <= 0: return -1 if (ca < 0 or r < 0 or cb < 0) else 0
            if ca >= 0 and r >= 0 and cb >= 0: return 1 if (ca > 0 or r > 0 or cb > 0) else 0
        return None
    def relate(self, st, x, y, r):
        if x[0] != 'i': x, y, r = y, x, -r
        st.rel[(x[1], y[0], y[1])] = r
    def i_icmp(self, st, i):
        a, b = [self.val(st, o) for o in i.ops]
        if a[0] in ('opq',) or b[0] in ('opq',): return self.either(st, i)
        if a[0] == 'int' and b[0] == 'int': return super().i_icmp(st, i)
        x, y = self.loc(st, a), self.loc(st, b)
        if x is None or y is None: raise Broken('row walk of %s: comparison of %s and %s at %s' % (self.fn.dem, a, b, self.m.where(i)))
        r = self.cmp(st, x, y)
        if r is None:
            out = []
            for r in (-1, 0, 1):
                t = st.copy(); self.relate(t, x, y, r); self.spec.closure(self, t); out.append((t, False))
            return ('fork', out)
        p = i.pred[1:] if i.pred[0] in 'us' else i.pred
        st.env[i.res] = ('int', int({'eq': r == 0, 'ne': r != 0, 'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[p]))
    def either(self, st, i):
        t = st.copy(); st.env[i.res] = ('int', 0); t.env[i.res] = ('int', 1)
        return ('fork', [(st, True), (t, True)])
    def i_fcmp(self, st, i): return self.either(st, i)
    # ---- moving
    def bounded(self, st):
        if any(len(it) > self.maxlen for it, g in st.rows.values()): raise Bad('entries are passed although their counterparts may remain')
    def tok(self):
        self.nt += 1; return ('tk', self.nt)
    def move(self, st, tag, item, up):
        """[(state, item)] after moving one entry up or down; states may be refined"""
        items, gaps = st.rows[tag]
        n = items.index(item)
        while True:
            g = gaps[n] if up else gaps[n-1]
            if g != 0: self.bounded(st)
            if g == 0:
                n += 1 if up else -1
                if items[n] == 'M': continue
                return [(st, items[n])]
            out = []; gi = n if up else n-1
            t = st.copy(); k = self.tok()
            it = list(items); gg = list(gaps); it.insert(gi+1, k); gg[gi:gi+1] = [0, '?'] if up else ['?', 0]
            t.rows[tag] = (tuple(it), tuple(gg))
            out.append((t, k))
            if g == '?':
                s = st.copy(); gg = list(gaps); gg[gi] = 0; s.rows[tag] = (items, tuple(gg))
                out += self.move(s, tag, item, up)
            return out
    def iterop(self, st, i, op, dem, a):
        def get(p):
            v = st.mem.get(p[1]) if p[0] == 'obj' else None
            if v is None: raise Bad('an iterator is used before it is set')
            if v == OLD: raise Bad('an iterator of an earlier row is used')
            return v
        post = dem.rstrip().endswith('(int)')
        p = a[1] if post and op in ('operator++', 'operator--') else a[0]
        if op in ('Iter', '~Iter', 'operator=') or get(p)[0] == 'rit': return super().iterop(st, i, op, dem, a)
        v = get(p)
        if op in ('operator==', 'operator!='):
            w = get(a[1])
            if w[0] != 'cit' or w[1] != v[1]: raise Bad('iterators of different rows are compared')
            if {v[2], w[2]} == {'B', 'E'}: raise Bad('an iterator past one end of the row is compared with the other end')
            st.env[i.res] = ('int', int((v == w) == (op == 'operator=='))); return
        if op in ('index', 'operator*', 'operator->', 'operatorARROW'):
            if v[2] in ('B', 'E', 'M'): raise Bad('an entry past the end of the row is accessed')
            st.env[i.res] = ('idx' if op == 'index' else 'ent', v[1], v[2]); return
        if op in ('operator++', 'operator--'):
            up = op == 'operator++'
            if v[2] == ('E' if up else 'B'): raise Bad('a column iterator is moved past the end of the row')
            if post: st.mem[a[0][1]] = v
            out = []
            for t, k in self.move(st, v[1], v[2], up):
                t = t.copy(); t.mem[p[1]] = ('cit', v[1], k); self.spec.closure(self, t)
                if i.res: t.env[i.res] = p
                out.append((t, True))
            return ('fork', out)
        raise Broken('row walk of %s: iterator operation %s' % (self.fn.dem, dem))
    def rowop(self, st, i, op, a):
        if op in ('begin', 'end', 'beforeBegin', 'beforeEnd', 'find'):
            r = a[1]
            if r == OLD: raise Bad('an earlier row is accessed')
            if r[0] != 'row': raise Broken('row walk: %s of %s' % (op, r))
            tag = r[1] if len(r) > 1 else 'i'; d = a[0][1]
            if tag not in st.rows: raise Broken('row is gone')
            if op == 'end': st.mem[d] = ('cit', tag, 'E'); return
            if op == 'beforeBegin': st.mem[d] = ('cit', tag, 'B'); return
            if op in ('begin', 'beforeEnd'): opts = self.move(st, tag, 'B' if op == 'begin' else 'E', op == 'begin')
            else: opts = self.find(st, tag, self.loc(st, a[2]))
            out = []
            for t, k in opts:
                t = t.copy(); t.mem[d] = ('cit', tag, k); self.spec.closure(self, t); out.append((t, True))
            return ('fork', out)
        if op == 'operator[]':
            tag = a[0][1] if len(a[0]) > 1 else 'i'
            out = []
            for t, k in self.find(st, tag, self.loc(st, a[1])):
                if k == 'E': raise Bad('an entry that may be missing is accessed')
                t = t.copy(); t.env[i.res] = ('ent', tag, k); out.append((t, True))
            return ('fork', out)
        if op == 'size': st.env[i.res] = ('opq',); return
        raise Broken('row walk of %s: row operation %s at %s' % (self.fn.dem, op, self.m.where(i)))
    def find(self, st, tag, x):
        if x is None: raise Broken('row walk of %s: lookup' % self.fn.dem)
        items, gaps = st.rows[tag]
        for it in items:
            if it in ('B', 'E'): continue
            if self.cmp(st, (tag, it), x) == 0: return [(st, it if it != 'M' else 'E')]
        out = []
        lo = 0; hi = len(items)-1
        for n, it in enumerate(items[1:-1], 1):
            c = self.cmp(st, (tag, it), x)
            if c is not None and c < 0: lo = n
            if c is not None and c > 0: hi = min(hi, n)
        for n in range(lo, hi+1):
            if n > lo and n < hi and items[n] != 'M':
                t = st.copy(); self.relate(t, (tag, items[n]), x, 0); out.append((t, items[n]))
            if n < hi and gaps[n] != 0:
                t = st.copy(); k = self.tok(); it = list(items); gg = list(gaps); it.insert(n+1, k); gg[n:n+1] = ['?', '?']
                t.rows[tag] = (tuple(it), tuple(gg)); self.relate(t, (tag, k), x, 0); out.append((t, k))
        t = st.copy(); self.spec.notfound(self, t, tag, x); out.append((t, 'E'))
        return out
    def matop(self, st, i, op, a):
        if op == 'operator[]':
            x = self.loc(st, a[1]) if a[1][0] in ('old', 'ridx', 'idx') else None
            if x is None: raise Broken('row lookup')
            if x[0] != 'i':
                if x[1] == 'D': tag = x[0]
                else: raise Bad('a row is looked up with an index of an earlier row')
            elif x[1] in ('D', 'M'): tag = 'i'
            elif self.cmp(st, x, ('i', self.dg(st))) > 0: raise Bad('a row that is not factorised yet is accessed')
            else:
                tag = ('j', x[1])
                if tag not in st.rows: st.rows[tag] = (('B', 'D', 'E'), ('?', '?'))
                self.spec.lookup(self, st, x[1])
            st.env[i.res] = ('row', tag); return
        if op in ('N', 'M', 'nonzeroes'): st.env[i.res] = ('opq',); return
        return super().matop(st, i, op, a)
    # ---- values
    def value(self, st, p):
        if p == OLD: raise Bad('an entry of an earlier row is used')
        if p[0] == 'obj':
            v = st.mem.get(p[1])
            if v is None: raise Bad('a value is used before it is set')
            return self.asv(v)
        if p[0] == 'ent':
            if p[1] == 'i' and st.stat.get((p[1], p[2]), '').startswith('zero:'): return vsum([])
            return vatom('e', p[1], p[2], st.stat.get((p[1], p[2]), 'raw') if p[1] == 'i' else 'fin')
        if p[0] == 'dent': return self.spec.dread(self, st, p)
        raise Broken('row walk of %s: operand %s' % (self.fn.dem, p))
    def asv(self, v):
        if v[0] == 'V': return v
        if v == OLD or v == ('stale',): raise Bad('a value of an earlier stage is used')
        if v[0] in ('num',) and v[1][1] == 0: return vsum([((), v[1][0])])
        raise Broken('row walk of %s: %s is not an entry' % (self.fn.dem, v))
    def assign(self, st, p, v):
        if p == OLD: raise Bad('an entry of an earlier row is changed')
        if p[0] == 'obj': st.mem[p[1]] = v; return
        if p[0] == 'dent': return self.spec.dwrite(self, st, p, v)
        if p[0] != 'ent': raise Broken('row walk of %s: target %s' % (self.fn.dem, p))
        if p[1] != 'i': raise Bad('an entry of an earlier row is changed')
        it = p[2]; s = ('e', 'i', it, st.stat.get(('i', it), 'raw'))
        z = st.sp.get('zeroed')
        if z is not None and z != it: raise Bad('an entry is set to zero')
        if not v[1]:
            st.sp['zeroed'] = it; st.stat[('i', it)] = 'zero:' + st.stat.get(('i', it), 'raw').replace('zero:', ''); return
        if z == it:
            st.sp['zeroed'] = None; st.stat[('i', it)] = s[3][5:]; s = ('e', 'i', it, s[3][5:])
        d = dict(v[1])
        if d.pop((s,), 0) == 1 and d:
            for f, c in d.items():
                if c != -1: raise Bad('a product is added to an entry instead of subtracted' if c == 1 else 'a product is subtracted several times')
                self.spec.update(self, st, it, f)
            self.stale(st, s)
        elif len(v[1]) == 1 and v[1][0][1] == 1 and len(v[1][0][0]) == 2 and s in v[1][0][0] and (self.comm or v[1][0][0][0] == s):
            f = list(v[1][0][0]); f.remove(s)
            self.spec.scale(self, st, it, f[0])
        elif v == vatom('inv', ('V', (((s,), 1),))):
            self.spec.invert(self, st, it)
        else: raise Bad('an entry is overwritten with something else than its update')
    def stale(self, st, s):
        def g(x):
            if isinstance(x, tuple) and x and x[0] == 'V' and repr(s) in repr(x): return ('stale',)
            return x
        st.env = {k: g(v) for k, v in st.env.items()}; st.mem = {k: g(v) for k, v in st.mem.items()}
    def i_load(self, st, i):
        p = self.val(st, i.ops[0])
        if p[0] in ('ent', 'dent'): st.env[i.res] = self.value(st, p); return
        return super().i_load(st, i)
    def i_store(self, st, i):
        v, p = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if p[0] in ('ent', 'dent'): return self.assign(st, p, self.asv(v))
        if p[0] in ('obj', ) or p == OLD: return super().i_store(st, i)
        if p[0] in ('sub', 'c', 'undef', 'opq'): return      # message and exception objects
        return super().i_store(st, i)
    def arith(self, st, op, a):
        if all(x[0] == 'num' for x in a): return super().arith(st, op, a)
        x = [self.asv(v) for v in a]
        if op == 'fneg': return vadd(vsum([]), x[0], -1)
        if op in ('fadd', 'fsub'): return vadd(x[0], x[1], 1 if op == 'fadd' else -1)
        if op == 'fmul': return vmul(x[0], x[1], True)
        if op == 'fdiv':
            return vmul(x[0], vatom('inv', x[1]), True)
        raise Broken('arith %s' % op)
    def i_landingpad(self, st, i): return ('end',)
    def call(self, st, i, h, dem, a):
        if h.startswith('__cxa_allocate_exception'): raise Skip()
        if 'bildl_subtractBCT' in dem:
            self.assign(st, a[2], vadd(self.value(st, a[2]), vmul(self.value(st, a[0]), self.tr(self.value(st, a[1])), False), -1)); return
        if re.match(r'vt::operator\*\(', dem):
            st.mem[a[0][1]] = vmul(self.value(st, a[1]), self.value(st, a[2]), False); return
        return super().call(st, i, h, dem, a)
    def tr(self, v): return ('V', tuple((tuple(('T', x) for x in reversed(f)), c) for f, c in v[1]))
    def meop(self, st, i, op, dem, a):
        if op == '~ME': st.mem.pop(a[0][1], None) if a[0][0] == 'obj' else None; return
        if op == 'ME':
            if len(a) == 1: return
            st.mem[a[0][1]] = self.value(st, a[1]); return
        if op == 'operator=':
            v = self.asv(a[1]) if a[1][0] == 'num' else self.value(st, a[1])
            self.assign(st, a[0], v); st.env[i.res] = a[0]; return
        if op in ('operator-=', 'operator+='):
            self.assign(st, a[0], vadd(self.value(st, a[0]), self.value(st, a[1]), -1 if op == 'operator-=' else 1)); st.env[i.res] = a[0]; return
        if op in ('rightmultiply', 'leftmultiply'):
            x, y = self.value(st, a[0]), self.value(st, a[1])
            self.assign(st, a[0], vmul(x, y, False) if op[0] == 'r' else vmul(y, x, False))
            if i.res: st.env[i.res] = a[0]
            return
        if op == 'invert':
            self.assign(st, a[0], vatom('inv', self.value(st, a[0]))); return
        raise Broken('row walk of %s: entry operation %s' % (self.fn.dem, dem))

# ------------------------------------------------------------------ specifications
class Spec:
    """common part: one elimination active at a time, tracked by a pair of frontiers"""
    def start(self, st): pass
    def finish(self, w, st): pass
    def sweepend(self, w, st): pass
    def notfound(self, w, st, tag, x): st.sp['nf'] = st.sp.get('nf', frozenset()) | {(tag,) + x}
    def dread(self, w, st, p): raise Broken('stored diagonal')
    dwrite = dread
    def rowstart(self, w, st): st.sp = {'F': 'B', 'act': None, 'P': None, 'Q': None, 'done': frozenset(), 'nf': frozenset()}
    def nxt(self, st, tag, item):
        """next entry after item if it is known to be adjacent, else None"""
        if tag not in st.rows: return None
        items, gaps = st.rows[tag]
        if item not in items: return None
        n = items.index(item)
        while n < len(items)-1 and gaps[n] == 0:
            n += 1
            if items[n] != 'M': return items[n]
        return None
    def nxtpos(self, st, tag, item):
        """like nxt, but stops at the diagonal position of a row without diagonal"""
        items, gaps = st.rows[tag]; n = items.index(item)
        return items[n+1] if gaps[n] == 0 else None
    def lower(self, w, st, it): return it not in ('D', 'M', 'B', 'E') and w.cmp(st, ('i', it), ('i', w.dg(st))) < 0
    def closure(self, w, st):
        if not st.row: return
        s = st.sp
        if not s.get('act') or s['P'] is None: return
        tag = ('j', s['act'])
        while tag in st.rows:
            b = self.nxt(st, 'i', s['P']); c = self.nxt(st, tag, s['Q'])
            moved = False
            if c is not None and c != 'E':
                hit = any(q == c for p, q in s['done'])
                if hit or ('i', tag, c) in s['nf']: moved = True; s['Q'] = c
            if not moved and b is not None and b != 'E' and any(p == b for p, q in s['done']): moved = True; s['P'] = b
            if not moved and b is not None and c is not None and 'E' not in (b, c):
                r = w.cmp(st, ('i', b), (tag, c))
                if r is not None and r < 0: s['P'] = b; moved = True
                elif r is not None and r > 0: s['Q'] = c; moved = True
            if not moved: break
        if tag in st.rows:
            s['nf'] = frozenset(k for k in s['nf'] if k[0] != 'i' or k[1] != tag or w.cmp(st, (tag, k[2]), (tag, s['Q'])) > 0)
            s['done'] = frozenset((p, q) for p, q in s['done'] if w.cmp(st, ('i', p), ('i', s['P'])) > 0 and w.cmp(st, (tag, q), (tag, s['Q'])) > 0)
    def pair(self, w, st, p, q):
        s = st.sp; tag = ('j', s['act'])
        if s['P'] is None or (p, q) in s['done'] or w.cmp(st, ('i', p), ('i', s['P'])) <= 0 or w.cmp(st, (tag, q), (tag, s['Q'])) <= 0: raise Bad('a product is subtracted twice')
        s['done'] = s['done'] | {(p, q)}
        self.closure(w, st)
    def eq(self, w, st, p, tag, q):
        if w.cmp(st, ('i', p), (tag, q)) != 0: raise Bad('entries of different columns are combined')
    def split(self, w, f, first):
        """the two factors, the one satisfying first in front"""
        if len(f) != 2: raise Bad('an entry is changed by something else than a product of two entries')
        if w.comm and not first(f[0]) and first(f[1]): return f[1], f[0]
        return f

class ILU0(Spec):
    name = 'ILU(0)'
    def complete(self, st):
        s = st.sp
        if s['act'] is None or s['P'] is None: return True
        return self.nxt(st, 'i', s['P']) == 'E' or self.nxt(st, ('j', s['act']), s['Q']) == 'E'
    def need(self, w, st):
        self.closure(w, st)
        if not self.complete(st): raise Bad('an elimination ends although entries of both rows may remain')
    def lookup(self, w, st, t): pass
    def scale(self, w, st, t, f):
        if not self.lower(w, st, t): raise Bad('an entry that is not left of the diagonal is divided by a pivot')
        if st.stat.get(('i', t), 'raw') != 'raw': raise Bad('an entry is divided by its pivot twice')
        if f != ('e', ('j', t), 'D', 'fin'): raise Bad('an entry is multiplied by something else than the inverted pivot of its column')
        self.need(w, st)
        if self.nxt(st, 'i', st.sp['F']) != t: raise Bad('an entry left of the diagonal is skipped')
        st.stat[('i', t)] = 'scaled'
        st.sp.update(F=t, act=t, P=t, Q='D', done=frozenset(), nf=frozenset())
    def update(self, w, st, x, f):
        s = st.sp
        if s['act'] is None: raise Bad('an entry is changed before any elimination')
        a, b = self.split(w, f, lambda y: y[1] == 'i')
        if a != ('e', 'i', s['act'], 'scaled'): raise Bad('the product is not built with the factor of the active elimination')
        if b[0] != 'e' or b[1] != ('j', s['act']): raise Bad('the product is built with an entry of another row')
        if w.cmp(st, (b[1], b[2]), (b[1], 'D')) <= 0: raise Bad('the product is built with an entry that is not right of the pivot')
        self.eq(w, st, x, b[1], b[2])
        self.pair(w, st, x, b[2])
    def invert(self, w, st, it):
        if it != 'D': raise Bad('an off-diagonal entry is inverted')
        if st.stat.get(('i', 'D')) == 'inv': raise Bad('the pivot is inverted twice')
        self.need(w, st)
        if self.nxt(st, 'i', st.sp['F']) != 'D': raise Bad('the pivot is inverted before all eliminations are done')
        st.stat[('i', 'D')] = 'inv'; st.sp['inv'] = 1
    def rowend(self, w, st):
        if not st.sp.get('inv'): raise Bad('a row ends without inverting its pivot')
        st.sp = {}

class ILDL(Spec):
    name = 'ILDL'
    def complete(self, st):
        s = st.sp
        if s['act'] is None or s['P'] is None: return True
        return self.nxt(st, 'i', s['P']) == s['act'] or self.nxt(st, ('j', s['act']), s['Q']) == 'D'
    def lookup(self, w, st, t):
        s = st.sp
        self.closure(w, st)
        if 'F2' in s or t == s['act']: return
        n = self.nxtpos(st, 'i', s['F'])
        if n == t or n in ('D', 'M'):
            if not self.complete(st): raise Bad('a column is left although entries of both rows may remain')
        if n == t: s.update(F=t, act=t, P='B', Q='B', done=frozenset(), nf=frozenset())
        elif n == 'D' or w.cmp(st, ('i', t), ('i', s['F'])) < 0: return
        else: raise Bad('an entry left of the diagonal is skipped')
    def update(self, w, st, x, f):
        s = st.sp
        if x == 'D':
            a, b = self.split(w, f, lambda y: y[3] == 'raw')
            if b[0] == 'T': b = b[1]
            elif not w.comm: raise Bad('a factor is not transposed')
            if s.get('pend') is None or a != ('e', 'i', s['pend'], 'raw') or b != ('e', 'i', s['pend'], 'scaled'): raise Bad('the pivot is updated with something else than L D L^T of the present entry')
            s['pend'] = None; return
        if x != s['act']: raise Bad('an entry is changed out of turn')
        a, b = self.split(w, f, lambda y: y[1] == 'i')
        if b[0] == 'T': b = b[1]
        elif not w.comm: raise Bad('a factor is not transposed')
        tag = ('j', x)
        if a[0] != 'e' or a[1] != 'i' or a[3] != 'raw' or w.cmp(st, ('i', a[2]), ('i', x)) >= 0: raise Bad('the product is built with an entry that is not left of the present one')
        if b[0] != 'e' or b[1] != tag or w.cmp(st, (tag, b[2]), (tag, 'D')) >= 0: raise Bad('the product is built with an entry that is not left of the diagonal of the other row')
        self.eq(w, st, a[2], tag, b[2])
        self.pair(w, st, a[2], b[2])
    def scale(self, w, st, t, f):
        s = st.sp; self.closure(w, st)
        if 'F2' not in s and self.nxtpos(st, 'i', s['F']) == 'D' and self.complete(st): s.update(F2='B', act=None, P=None, Q=None, done=frozenset(), nf=frozenset())
        if 'F2' not in s or not self.lower(w, st, t): raise Bad('an entry is divided by a pivot before its row is complete')
        if s.get('pend') is not None: raise Bad('the pivot is not updated with every entry')
        if self.nxt(st, 'i', s['F2']) != t: raise Bad('an entry left of the diagonal is skipped')
        if f != ('e', ('j', t), 'D', 'fin'): raise Bad('an entry is multiplied by something else than the inverted pivot of its column')
        st.stat[('i', t)] = 'scaled'; s['F2'] = t; s['pend'] = t
    def invert(self, w, st, it):
        s = st.sp; self.closure(w, st)
        if it != 'D': raise Bad('an off-diagonal entry is inverted')
        if s.get('inv'): raise Bad('the pivot is inverted twice')
        if s.get('pend') is not None or self.nxt(st, 'i', s.get('F2', 'B')) != 'D': raise Bad('the pivot is inverted before it is updated with every entry')
        if 'F2' not in s and (s['act'] is not None): raise Bad('the pivot is inverted before its row is complete')
        st.stat[('i', 'D')] = 'inv'; s['inv'] = 1
    def rowend(self, w, st):
        if not st.sp.get('inv'): raise Bad('a row ends without inverting its pivot')
        st.sp = {}

class DILU(Spec):
    name = 'DILU'
    def start(self, st): st.mem['all'] = ('c', None)
    def rowstart(self, w, st):
        st.sp = {'F': 'B', 'd': st.mem['all'][1], 'done': frozenset(), 'nf': frozenset()}
    def lookup(self, w, st, t): pass
    def closure(self, w, st):
        if not st.row: return
        s = st.sp
        while True:
            t = self.nxt(st, 'i', s['F'])
            if t is None or t in ('D', 'E'): break
            if t in s['done'] or (('j', t), 'i', w.dg(st)) in s['nf']: s['F'] = t
            else: break
        s['nf'] = frozenset(k for k in s['nf'] if w.cmp(st, ('i', k[0][1]), ('i', s['F'])) > 0)
    def which(self, w, st, p):
        x = w.loc(st, p[2])
        if x[0] == 'i' and x[1] in ('D', 'M'): return 'i'
        if x[0] == 'i' and self.lower(w, st, x[1]): return x[1]
        raise Bad('a stored diagonal of a row not yet treated is used')
    def dread(self, w, st, p):
        x = self.which(w, st, p)
        if x == 'i':
            if st.sp['d'] is None: raise Bad('a stored diagonal is used before it is set')
            return vatom('d', 'i', st.sp['d'])
        return vatom('d', x, 'fin')
    def dwrite(self, w, st, p, v):
        s = st.sp
        if self.which(w, st, p) != 'i': raise Bad('the stored diagonal of another row is changed')
        me = ('d', 'i', s['d'])
        if v == vatom('e', 'i', 'D', 'raw'):
            if s['d'] is not None or s['F'] != 'B': raise Bad('the stored diagonal is reset')
            s['d'] = 'init'; return
        if s['d'] == 'init' and v == vatom('inv', ('V', (((me,), 1),))):
            if self.nxt(st, 'i', s['F']) != 'D': raise Bad('the diagonal is inverted before it is updated with every lower entry')
            s['d'] = 'inv'; return
        d = dict(v[1])
        if s['d'] == 'init' and d.pop((me,), 0) == 1 and len(d) == 1:
            (f, c), = d.items()
            if c != -1: raise Bad('a product is added to the diagonal instead of subtracted')
            t = [y[2] for y in f if y[0] == 'e' and y[1] == 'i']
            if len(f) != 3 or len(t) != 1 or not self.lower(w, st, t[0]): raise Bad('the diagonal is updated with something else than a(i,j) d(j) a(j,i)')
            t = t[0]
            q = [y[2] for y in f if y[0] == 'e' and y[1] == ('j', t)]
            want = (('e', 'i', t, 'raw'), ('d', t, 'fin'), ('e', ('j', t), q[0] if q else None, 'fin'))
            if (sorted(f, key=repr) != sorted(want, key=repr)) if w.comm else f != want: raise Bad('the diagonal is updated with something else than a(i,j) d(j) a(j,i)')
            if w.cmp(st, (('j', t), q[0]), ('i', w.dg(st))) != 0: raise Bad('the entry a(j,i) is taken from another column')
            if t in s['done'] or w.cmp(st, ('i', t), ('i', s['F'])) <= 0: raise Bad('a product is subtracted twice')
            s['done'] = s['done'] | {t}
            self.closure(w, st); w.stale(st, me)
            s['done'] = frozenset(t for t in s['done'] if w.cmp(st, ('i', t), ('i', s['F'])) > 0)
            return
        raise Bad('the stored diagonal is overwritten with something else than its update')
    def scale(self, w, st, t, f): raise Bad('the matrix is changed')
    def update(self, w, st, t, f): raise Bad('the matrix is changed')
    def invert(self, w, st, t): raise Bad('the matrix is changed')
    def rowend(self, w, st):
        d = st.sp['d']
        st.mem['next'] = ('c', d)
        st.sp = {}
    def sweepend(self, w, st): st.mem['all'] = st.mem.pop('next')
    def finish(self, w, st):
        if st.mem['all'] != ('c', 'inv'): raise Bad('the diagonals are not inverted')
