"""convertToCRS: the row walk extended by the counters and row starts of the split storage."""
import re
import rowwalk as R
from rowwalk import Walk, F, ONE, atom, fadd, Bad, OLD
from harness import Broken

class Undecided(Exception):
    def __init__(self, k): self.k = k

def search(m, fn, roles, limit=200):
    """the kernel is right if some interpretation of its counters makes every path right"""
    names = [r[1] for r in roles.values() if r[0] == 'crs']
    first = None; todo = [{}]; n = 0
    while todo:
        asm = todo.pop(); n += 1
        if n > limit: raise Broken('%s: too many counters' % fn.dem)
        try: w = CrsWalk(m, fn, roles, asm)
        except Undecided as u:
            opts = ['plain', 'vis'] + names
            w0 = CrsWalk.__new__(CrsWalk); w0.m = m; w0.fn = fn; w0.roles = roles; w0.cfg = IRCFG(fn)
            r = w0.role(u.k)
            opts.sort(key=lambda o: o == r)      # tried last-in first-out
            todo += [dict(asm, **{u.k: o}) for o in opts]
            continue
        except Bad as e: continue
        except Broken as e:
            if first is None: first = e
            continue
        if not w.problems: return w
        if first is None: first = w
    if isinstance(first, Exception): raise first
    return first

class CrsWalk(Walk):
    def __init__(self, m, fn, roles, assume):
        self.assume = assume
        super().__init__(m, fn, roles, maxst=4000)
    """roles: parameter index -> ('crs', name) | ('inv', name).
    ('cnt', name, k): number of entries stored in name so far plus k;  ('vis', k): number of rows visited before plus k"""
    def intop(self, st, op, a, i):
        if op in ('add', 'sub') and a[1][0] == 'int' and a[0][0] in ('cnt', 'vis'):
            k = a[1][1] if op == 'add' else -a[1][1]
            return a[0][:-1] + (self.s64(a[0][-1]+k),)
        if any(x[0] in ('opaque',) for x in a): return ('opaque',)
        return super().intop(st, op, a, i)
    def s64(self, k):
        k &= (1 << 64)-1
        k = k - (1 << 64) if k >= 1 << 63 else k
        if abs(k) > 6: raise Bad('a counter drifts away from the number of entries stored')
        return k
    def i_udiv(self, st, i): st.env[i.res] = ('opaque',)
    def i_icmp(self, st, i):
        if any(self.val(st, o)[0] == 'opaque' for o in i.ops): raise Broken('comparison of sizes in %s' % self.fn.dem)
        super().i_icmp(st, i)
    def matop(self, st, i, op, a):
        if op in ('N', 'M', 'nonzeroes'): st.env[i.res] = ('opaque',); return
        if op in ('begin', 'beforeEnd'):
            r = super().matop(st, i, op, a)
            return r
        return super().matop(st, i, op, a)
    def mapcount(self, st, f):
        def g(v): return f(v) if isinstance(v, tuple) and v and v[0] in ('cnt', 'vis') else v
        for d in (st.env, st.mem):
            for k in d: d[k] = g(d[k])
    def rowend(self, st):
        # the row start of the following row must have been set to the number of entries stored by now
        for v in st.vecs:
            if v in self.crs and st.vecs[v][1] is not None or (v in self.crs and st.mem.get('touch:'+v) == st.sweep):
                if st.mem.get('first:'+v) != 1: raise Bad('the start of the first row of %s is not recorded' % v)
                if st.mem.get('start:'+v) != 1: raise Bad('the end of the row in %s is not recorded after its last entry' % v)
        for v in self.crs: st.mem.pop('start:'+v, None)
        super().rowend(st)
        self.mapcount(st, lambda v: ('vis', self.s64(v[1]-1)) if v[0] == 'vis' else v)
    def explore(self):
        self.crs = [r[1] for r in self.roles.values() if r[0] == 'crs']
        super().explore()
    def call(self, st, i, h, dem, a):
        op = h.split('::')[-1]; kind = h.split('::')[-2] if '::' in h else ''
        if kind == 'Crs':
            if a[0][0] != 'crs': raise Broken('unknown storage at %s' % self.m.where(i))
            n = a[0][1]
            if op == 'push_back':
                e, idx = a[1], a[2]
                if OLD in (e, idx): raise Bad('an entry of an earlier row is stored')
                if e[0] != 'ent': raise Broken('stored value %s' % (e,))
                if self.cls(st, e[1]) == 'D': raise Bad('the diagonal entry is stored in %s' % n)
                if idx[0] != 'idx' or idx[1] != e[1]: raise Bad('an entry is stored with an index that does not belong to it')
                base, cur = st.vecs[n]
                f = self.product(st, None, e[1], ('nb', e[1], ('index',), n), ONE, cur if cur is not None else base)
                st.vecs[n] = (base, f)
                st.mem.pop('start:'+n, None); st.mem['touch:'+n] = st.sweep
                self.mapcount(st, lambda v: ('cnt', v[1], self.s64(v[2]-1)) if v[0] == 'cnt' and v[1] == n else v)
                return
            if op in ('resize', 'reserveAdditional'): return
            if op == 'rows': st.env[i.res] = ('opaque',); return
        if kind == 'IdxVec':
            st.env[i.res] = ('rowstart', a[0][1], a[1]); return
        if kind == 'InvVec':
            if op == 'resize': return
            if op == 'operator[]': st.env[i.res] = ('invref', a[0][1], a[1]); return
        if kind == 'ME' and a[0][0] == 'invref':
            if op == 'operator=' and a[1][0] == 'ent':
                if not st.row: raise Bad('an inverse is stored outside any row')
                self.visited(st, a[0][2], 0, 'the inverted diagonal')
                if self.cls(st, a[1][1]) != 'D': raise Bad('an off-diagonal entry is stored as inverted diagonal')
                n = a[0][1]
                if st.vecs[n][1] is not None: raise Bad('the inverted diagonal is stored twice')
                st.vecs[n] = (st.vecs[n][0], atom('diagonal'))
                if i.res: st.env[i.res] = a[0]
                return
        return super().call(st, i, h, dem, a)
    def visited(self, st, idx, k, what):
        """idx must be the number of rows visited before the present one plus k"""
        if st.dir == 'asc':
            if idx[0] == 'ridx' and k == 0: return
            if idx[0] == 'shift' and idx[1] == ('ridx',) and idx[2] == k: return
        if idx == ('vis', k): return
        raise Bad('%s is stored at a position that is not that of the row' % what)
    def i_store(self, st, i):
        v, p = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if p[0] == 'rowstart':
            n, idx = p[1], p[2]
            if idx == ('int', 0) and not st.open and not st.row:
                if v != ('int', 0) and v != ('cnt', n, 0): raise Bad('the first row does not start at 0')
                st.mem['first:'+n] = 1; return
            if not st.row: raise Bad('a row start is set outside any row')
            self.visited(st, idx, 1, 'the end of the row')
            if v != ('cnt', n, 0): raise Bad('the end of the row in %s is set to %s' % (n, 'a counter that is off by %d' % v[2] if v[0] == 'cnt' and v[1] == n else 'something else than the number of entries stored in it'))
            st.mem['start:'+n] = 1; st.mem['touch:'+n] = st.sweep; return
        super().i_store(st, i)
    def iterop(self, st, i, op, dem, a):
        was = st.open
        r = super().iterop(st, i, op, dem, a)
        if r and r[0] == 'fork' and not was:
            out = []
            for t, after in r[1]:
                if t.open and not was: out += [(u, after) for u in self.counters(t)]
                else: out.append((t, after))
            r = ('fork', out)
        return r
    def counters(self, t):
        """a sweep begins: zeros carried round the row loop may count rows or stored entries, as the present assumption says"""
        for k in list(t.env):
            if t.env[k] == ('int', 0) and k in self.carried():
                if k not in self.assume: raise Undecided(k)
                r = self.assume[k]
                if r == 'vis': t.env[k] = ('vis', 0)
                elif r != 'plain': t.env[k] = ('cnt', r, 0)
        return [t]
    def carried(self):
        if not hasattr(self, '_carr'):
            c = IRCFG(self.fn)
            self._carr = {}
            for b in c.succ:
                for i in self.fn.blocks[b].instrs:
                    if i.op == 'phi': self._carr[i.res] = i
        return self._carr
    def role(self, k):
        """what a counter counts: the blocks where it is incremented contain a push_back of one storage, or none (rows)"""
        if not hasattr(self, '_role'): self._role = {}
        if k in self._role: return self._role[k]
        # the web of phis and additions connected to k
        web = {k}; ch = True
        incs = []
        defs = self.fn.defs
        while ch:
            ch = False
            for b in self.cfg.succ:
                for i in self.fn.blocks[b].instrs:
                    if i.op == 'phi' and str(i.ty) == 'i64':
                        srcs = {v.v for v, p in i.phis if v.kind == 'local'}
                        if i.res in web and not srcs <= web: web |= srcs; ch = True
                        if i.res not in web and srcs & web: web.add(i.res); ch = True
                    if i.op in ('add', 'sub') and str(i.ty) == 'i64':
                        o = i.ops[0]
                        if o.kind == 'local':
                            if (o.v in web) != (i.res in web):
                                used = any(i.res in {v.v for v, p in q.phis if v.kind == 'local'} for bb in self.cfg.succ for q in self.fn.blocks[bb].instrs if q.op == 'phi')
                                if used or i.res in web: web |= {o.v, i.res}; ch = True
        names = set()
        for b in self.cfg.succ:
            L = self.fn.blocks[b].instrs
            if any(i.op in ('add', 'sub') and i.res in web for i in L):
                names |= {i.ops[0].v for i in L if i.op in ('call', 'invoke') and i.callee is not None and 'push_back' in self.m.dem.get(str(i.callee.v), '')}
        if not names: r = 'vis'
        else:
            pn = {p[0]: j for j, p in enumerate(self.fn.params)}
            nm = [self.roles[pn[x]][1] for x in names if x in pn and pn[x] in self.roles]
            r = nm[0] if len(nm) == 1 else None
        self._role[k] = r
        return r

def IRCFG(fn):
    import ir as IR
    return IR.CFG(fn, unwind=False)
