"""M03: every block of storage a container obtains is returned once with the count it was obtained with."""
from paths import Paths, simp, lin_of, lin_add, lin_scale, lin_const, consistent, equal_under
from pairs import by_name, run_pairs
from events import offsets
from absint import root
from harness import Broken
from summary import LIN, FnView, show, walk, subst
from M01 import Coarse, configs, rebase, INTERNAL, MAT, entries, TY
import re

ALLOC = re.compile(r'^vt::Alloc<.*::allocate\(|^operator new')
FREE = re.compile(r'^vt::Alloc<.*::deallocate\(|^operator delete')

def ev(P, st, i, nm, args, callee=None):
    if nm == 'store': return None
    if callee is not None and P.owned and len(args) == 1 and args[0] == ('p', 0) and isinstance(callee, tuple) and callee[0] in ('ld', 'ldv') and callee[1] and P.vslot == lin_add(lin_of(callee[1]), lin_of(root(callee[1])), -1)[1]:
        # releasing all arrays and leaving the object empty: what is prescribed for k_cfree
        for c in P.owned:
            x = P.load(st, c[1], c[2])
            if c[2] == 'ptr':
                if P.decide(st.facts, ('icmp', 'eq', lin_of(x))) is not True: st.trace = st.trace + (('free', x, None, '[]', i),)
            P.store(st, c[1], c[2], LIN(0), (i.block.name, i.idx))
        P.handled.add(i.res or (i.block.name, i.idx))
        return [st]
    if ALLOC.search(nm):
        n = args[-1] if '::allocate' in nm else args[0]
        x = ('new', i.res, n)
        if nm.startswith('operator new('): pass
        elif st.loops: st.trace = st.trace + (('lalloc', x, n),)
        else: st.trace = st.trace + (('alloc', x, n, '[]' if nm.startswith('operator') else kind(nm), i),)
        st.env[('call', i.res)] = x
        st.facts = st.facts | {('icmp', 'ne', lin_of(x))}
        if not nm.startswith('operator') and lin_const(n) is None: st.facts = st.facts | {P.renorm(('icmp', 'ne', lin_of(n)))}      # nothing is constructed in empty storage
        return [st]
    if FREE.search(nm):
        op = nm.startswith('operator')
        if op and '[]' not in nm: return [st]
        p, n = (args[0], None) if op else (args[1], args[2])
        st.trace = st.trace + (('lfree' if st.loops else 'free', p, n, '[]' if op else kind(nm), i),)
        st.env[('call', i.res)] = ('call', i.res)
        return [st]
    return None
def kind(nm):
    h = re.match(r'vt::Alloc<(.*)>::(de)?allocate', nm)
    t = h.group(1) if h else nm
    return 'index' if t == 'unsigned long' else 'row' if 'Window' in t else 'entry'

ELEM = re.compile(r'^vt::(ME|VE)::(~?)\1\(\)|^(?:.* )?vt::Alloc<.*>::(construct|destroy)<')
def elem(nm):
    """(kind, constructed or destroyed, position of the address)"""
    h = ELEM.match(nm)
    if h.group(3): return 'row', {'construct': 'ctor', 'destroy': 'dtor'}[h.group(3)], 1
    return 'entry', 'dtor' if h.group(2) else 'ctor', 0
class Ranged:
    """allocator calls touch no other memory; element constructors and destructors in counted loops are observed as ranges"""
    owned = (); vslot = None
    def counted(self, nm): return bool(ELEM.match(nm))
    def record(self, st, nm, lo, T, i):
        ek, ew, ep = elem(nm)
        st.trace = st.trace + ((ew, simp(lo[ep][0]), simp(T), ek, i),)
    def operands(self, nm): return [elem(nm)[2]]
    def killpred(self, i, st, loop=None):
        nm = self.v.callname(i)
        if (i.res or (i.block.name, i.idx)) in self.handled: return None
        if ALLOC.search(nm) or FREE.search(nm) or ELEM.match(nm): return None
        return super().killpred(i, st, loop)
    def block(self, b, pred, st):
        if b in self.loops and not (b in st.loops and pred in self.loops[b]):
            st = st.copy(); st.env[('range', b)] = None; self.count(b, pred, st)
        out = super().block(b, pred, st)
        for h in self.loops:
            fin = st.env.get(('exit', h))
            if not fin or b not in self.loops[h]: continue
            for s, n in out:
                if s not in self.loops[h]: n.env.update(fin)
        return out
    def count(self, h, pred, st):
        """element calls of this loop as (first address, number)"""
        v = self.v; body = self.loops[h]
        calls = [i for b in body for i in v.fn.blocks[b].instrs if i.op in ('call', 'invoke') and self.counted(v.callname(i))]
        if not calls: return
        ex = [(b, s) for b in body for s in v.u.succ[b] if s not in body]
        latch = [p for p in v.u.pred[h] if p in body]
        sub = {}; step = {}
        for i in v.fn.blocks[h].instrs:
            if i.op != 'phi': break
            ini = [x for x, p in i.phis if p == pred]; nxt = [x for x, p in i.phis if p in body]
            if len(ini) != 1 or len(nxt) != 1: continue
            d = lin_add(lin_of(v.canon(nxt[0])), LIN(0, [(('phi', i.res), 1)]), -1)
            if d[2] != (): continue
            sub[('phi', i.res)] = self.ev(v.canon(ini[0]), st); step[('phi', i.res)] = d[1]
        T = None
        if len(ex) == 1 and len(latch) == 1:
            b, s = ex[0]; t = v.fn.blocks[b].instrs[-1]
            if t.op == 'br':
                c = self.inv(v.canon(t.ops[0]), st, body)
                if t.targets[0] != s: c = v.neg(c)
                if c[0] == 'icmp' and c[1] in ('eq', 'uge', 'ule', 'sge', 'sle'):
                    k = sum(q * step.get(x, 0) for x, q in c[2][2])
                    d = LIN(c[2][1])
                    for x, q in c[2][2]: d = lin_add(d, lin_of(sub.get(x, x)), q)
                    if k and d[1] % k == 0 and all(q % k == 0 for _, q in d[2]):
                        T = LIN(-d[1] // k, [(x, -q // k) for x, q in d[2]])
                        if b in latch: T = lin_add(T, LIN(1))
        if T is not None:
            done = lin_add(T, LIN(1), -1) if ex[0][0] in latch else T
            st.env[('exit', h)] = {x: simp(lin_add(lin_of(sub[x]), lin_scale(done, step[x]))) for x in step}
        for i in calls:
            nm = v.callname(i); pos = self.operands(nm); out = {}
            for p in pos:
                a = self.inv(v.canon(i.ops[p]), st, body)
                if T is None or not any(x in step for x, _ in lin_of(a)[2]): out = None; break
                lo = LIN(lin_of(a)[1]); k = 0
                for x, q in lin_of(a)[2]: lo = lin_add(lo, lin_of(sub.get(x, x)), q); k += q * step.get(x, 0)
                if k < 0: lo = lin_add(lo, lin_scale(lin_add(T, LIN(1), -1), k))
                out[p] = (lo, k)
            if out is None: st.env[('elem', i.res or (i.block.name, i.idx))] = None; self.uncounted(st, i); continue
            self.record(st, nm, out, T, i)
    def uncounted(self, st, i): pass
    def inv(self, x, st, body):
        """value at loop entry: loads of this loop are read from the memory at entry"""
        v = self.v
        m = {t: self.load(st, self.inv(v.canon(v.fn.defs[t[1]].ops[0]), st, body), v.fn.defs[t[1]].ty) for t in walk(x) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'lv' and v.fn.defs[t[1]].block.name in body}
        return self.ev(subst(x, m), st)

class Own(Ranged, Paths):
    def __init__(self, *a, cells=(), own=None, **kw): self.seen = set(); self.hits = set(); self.handled = set(); super().__init__(*a, **kw)

class Rough(Ranged, Coarse):
    def __init__(self, *a, **kw): self.seen = set(); self.hits = set(); self.handled = set(); super().__init__(*a, **kw)
    def exact(self, a):
        r = root(a)
        return a in self.cells or isinstance(r, tuple) and r and (r[0] in ('al', 'new', 'p') or r == MAT)

ROUGH = ('compress', 'endind')
def run(ctx):
    ctx.rule('R-balance', 'on every path: storage owned before plus storage obtained is storage owned afterwards plus storage returned, as pairs of address and count')
    m = ctx.module('m03.cc'); d = by_name(m); off = offsets(m)
    ROW.update({k: lin_add(lin_of(off['row' + k]), lin_of(('p', 0)), -1)[1] for k in 'npj'})
    for k in sorted(d):
        if k.startswith('k_'): one(ctx, m, d[k], off, k[2:])
    ctx.need('R-balance', 15)
    published(ctx)

def setup(off, op):
    """[(label, initial facts)], resources before, resources after, kinds; a resource is (kind, pointer cell, count)"""
    if op[0] == 'd' and op not in ('dctor', 'dtor'): return dense(off, op)
    if op[0] == 'c' and op not in ('ctor', 'copy', 'compress'): return ccs(off, op)
    mats = [MAT] if op == 'next' else [0] if op not in ('assign',) else [0]
    obj = mats[0]
    f = lambda n, p=obj: simp(rebase(off[n], p))
    ld = lambda n, p=obj: ('ld', f(n, p), TY[n])
    res = [('row', f('r'), 'n'), ('entry', f('a'), 'asz')]
    cells = [(n, f(n), TY[n]) for n in ('mode', 'ready', 'n', 'a', 'asz', 'r')]
    constructed = op in ('ctor', 'nctor', 'ictor', 'dctor', 'copy')
    if constructed: cfg = [('', [])]
    else: cfg = configs2(off, op, obj)
    return cfg, res, cells, constructed, op == 'dtor'

def configs2(off, op, p):
    c = lambda n: lin_of(('ld', simp(rebase(off[n], p)), TY[n]))
    nul = lambda n: ('icmp', 'eq', c(n)); non = lambda n: ('icmp', 'ne', c(n)); pos = lambda n: ('icmp', 'sge', lin_add(c(n), LIN(1), -1))
    st = lambda k: ('icmp', 'eq', lin_add(c('ready'), LIN(k), -1))
    if op == 'next':
        both = [('icmp', 'eq', lin_add(c('asz'), lin_of(('ld', simp(rebase(off['nnz'], p)), 'i64')), -1)), st(1), nul('a'), pos('n'), non('r')]
        return [('rows allocated separately', both + [nul('asz')]), ('indices in one array', both + [pos('asz')])]
    return [('nothing allocated', [nul('r'), nul('a'), st(0)]),
            ('no rows', [nul('n'), nul('r'), nul('a'), nul('asz')]),
            ('rows allocated separately', [pos('n'), non('r'), nul('a'), nul('asz')]),
            ('indices in one array', [pos('n'), non('r'), nul('a'), pos('asz')]),
            ('entries in one array', [pos('n'), non('r'), non('a'), pos('asz'), st(3)]),
            ('entries in one array, implicit mode', [pos('n'), non('r'), non('a'), pos('asz'), st(1), ('icmp', 'eq', lin_add(c('mode'), LIN(2), -1))])]

def dense(off, op):
    f = lambda n: simp(rebase(off[n], 0))
    c = lambda n, t='i64': lin_of(('ld', f(n), t))
    con = op in ('ddctor', 'dctor2', 'dcopy')
    cells = [(n, f(n), t) for n, t in (('dn', 'i64'), ('dp', 'ptr'), ('drows', 'i64'), ('dcols', 'i64'))]
    nul = lambda n, t='i64': ('icmp', 'eq', c(n, t)); non = lambda n, t='i64': ('icmp', 'ne', c(n, t))
    cfg = [('', [])] if con else [('empty', [nul('dn'), nul('dp', 'ptr')]), ('non-empty', [('icmp', 'sge', lin_add(c('dn'), LIN(1), -1)), non('dp', 'ptr')])]
    return cfg, [('entry', f('dp'), 'dn')], cells, con, op == 'ddtor'

def ccs(off, op):
    f = lambda n: simp(rebase(off[n], 0))
    con = op in ('cdctor', 'ccopy')
    ptrs = ('cval', 'crow', 'ccol'); nums = ('cN', 'cM', 'cnnz')
    cells = [(n, f(n), 'i64') for n in nums] + [(n, f(n), 'ptr') for n in ptrs]
    if con: cfg = [('', [])]
    else:
        cfg = []
        for k in range(8):
            fs = [('icmp', 'ne' if k >> j & 1 else 'eq', lin_of(('ld', f(p), 'ptr'))) for j, p in enumerate(ptrs)]
            if k: fs.append(('icmp', 'sge', LIN(-1, [(('ld', f(n), 'i64'), 1) for n in nums])))
            cfg.append(('arrays %s' % bin(k), fs))
    return cfg, [('[]', f(p), None) for p in ptrs], cells, con, op == 'cdtor'

def one(ctx, m, fn, off, op):
    ctx.functions.add(fn.dem)
    cfgs, res, cells, con, des = setup(off, op)
    bad = []; n = 0
    for lab, init in cfgs:
        A = type('P', (Rough if op in ROUGH else Own,), dict(owned=cells if op[0] == 'c' and op in ('cassign', 'ccopy', 'cdtor') else (), vslot=slot(m)))(m, fn, event=ev, init=init, limit=40000, cells=cells, irrelevant=irr, own=0 if con else None)
        for l in A.leaves:
            gone = des or con and l.kind != 'ret'                                # a constructor that throws leaves no object behind
            if consistent(A, l.st.facts, ()) is None: continue
            n += 1
            bad += [('with %s: %s' % (lab, t) if lab else t, l) for t in balance(A, l, res, cells, con, gone) + sizes(A, l, off, op, con, gone or l.kind != 'ret')]
        if A.seen - A.hits: bad.append(('row storage is returned without destroying its entries', A.leaves[-1]))
    if not n: raise Broken('%s: no path' % op)
    ctx.ob('R-balance', op, not bad, bad[0][1].where() if bad else m.where(next(fn.instrs())), bad[0][0] if bad else '%d paths' % n)

def irr(c):
    if any(isinstance(t, tuple) and t and t[0] in ('ldv', 'phi', 'lv', 'sel', 'call') for t in walk(c)): return True
    return False

def balance(A, l, res, cells, con, des):
    ty = {n: (a, t) for n, a, t in cells}
    out = []; F = l.st.facts
    null = lambda x: A.decide(F, ('icmp', 'eq', lin_of(x))) is True
    have = []
    for k, cell, cnt in res:
        if con: continue
        have.append((k, ('ld', cell, 'ptr'), ('ld',) + ty[cnt] if cnt else None, 'held before'))
    for e in l.st.trace:
        if e[0] == 'alloc': have.append((e[3], e[1], e[2], 'obtained'))
        if e[0] == 'lalloc': out.append('storage is obtained inside a loop')
    have = [h for h in have if not null(h[1])]
    end = []
    if not des and 'asz' in ty and A.decide(F, ('icmp', 'eq', lin_of(A.load(l.st, *ty['asz'])))) is True:
        for e in entries(l.st.log):                       # rows that own their entries and indices
            if e[0] != 'st' or e[2] != 'ptr': continue
            for k, o in (('entry', ROW['p']), ('index', ROW['j'])):
                if [h for h in have if h[0] == k and h[3] == 'obtained' and h[1] == e[3]] and not (e[1] in [c[0] for c in ty.values()]):
                    Y = lin_add(lin_of(e[1]), LIN(o), -1)
                    end.append((k, e[3], A.load(l.st, simp(lin_add(Y, LIN(ROW['n']))), 'i64'), 'held by its row'))
    if not des:
        end += shared(A, l, [h for h in have if h[0] == 'index' and h[3] == 'obtained'])
        for k, cell, cnt in res:
            end.append((k, A.load(l.st, cell, 'ptr'), A.load(l.st, *ty[cnt]) if cnt else None, 'held afterwards'))
    for e in l.st.trace:
        if e[0] == 'free': end.append((e[3], e[1], e[2], 'returned'))
    end = [h for h in end if not null(h[1])]
    for h in have:
        hit = [e for e in end if e[0] == h[0] and equal_under(A, F, e[1], h[1])]
        if not hit:
            out.append('%s storage %s is neither kept nor returned (%s)' % (h[0], h[3], show(h[1])[:100])); continue
        if len(hit) > 1: out.append('%s storage %s is %s' % (h[0], h[3], ' and '.join(e[3] for e in hit)))
        for e in hit:
            end.remove(e)
            if h[2] is not None and e[2] is not None and not equal_under(A, F, e[2], h[2]):
                out.append('%s storage %s with count %s is %s with count %s' % (h[0], h[3], show(h[2])[:80], e[3], show(e[2])[:80]))
    out += elements(A, l)
    for e in end: out.append('%s storage that is not held is %s (%s)' % (e[0], e[3], show(e[1])[:100]))
    return out

def sizes(A, l, off, op, con, des):
    """the sizes published by dense and compressed-column matrices describe their storage"""
    out = []; F = l.st.facts
    f = lambda n, p=0: simp(rebase(off[n], p))
    if des: return out
    if op[0] == 'd' and op not in ('dctor', 'dtor'):
        e = [A.load(l.st, f(n), 'i64') for n in ('dn', 'drows', 'dcols')]
        ok = equal_under(A, F, e[0], simp(A.v._mul(lin_of(e[1]), lin_of(e[2])))) or equal_under(A, F, e[0], LIN(0)) and any(equal_under(A, F, x, LIN(0)) for x in e[1:])
        for p in (0, 1): ok = ok or all(equal_under(A, F, x, ('ld', f(n, p), 'i64')) for x, n in zip(e, ('dn', 'drows', 'dcols')))
        if not ok: out.append('the matrix has %s entries, %s rows and %s columns' % tuple(show(x)[:60] for x in e))
    if op[0] == 'c' and op not in ('ctor', 'copy', 'compress'):
        for e in l.st.trace:
            if e[0] != 'alloc': continue
            for p, n, c in (('cval', 'cnnz', 0), ('crow', 'cnnz', 0), ('ccol', 'cM', 1)):
                if A.load(l.st, f(p), 'ptr') != e[1]: continue
                want = lin_add(lin_of(A.load(l.st, f(n), 'i64')), LIN(c))
                got = e[2]
                if lin_const(got) == -1: continue                   # size overflow: operator new[] throws
                if isinstance(got, tuple) and got[0] == 'sel': got = [x for x in got[2:] if lin_const(x) is None][0]
                if not equal_under(A, F, got, simp(lin_scale(want, 8))): out.append('an array for %s is allocated with %s bytes' % (p[1:], show(got)[:100]))
    return out

ROW = {}
def shared(A, l, idx):
    """index arrays owned by a reference-counted block whose disposer returns them with the stored count"""
    out = []
    for h in idx:
        for e in entries(l.st.log):
            if e[0] != 'st' or e[3] != h[1]: continue
            X = root(e[1])
            if not (isinstance(X, tuple) and X[0] == 'new' and X != h[1]): continue
            vt = A.load(l.st, X, 'ptr'); g = root(vt)
            if not (isinstance(g, tuple) and g[0] == 'g' and '_ZTV' in str(g[1])): continue
            es = re.findall(r'ptr (?:@("[^"]*"|[\w.$]+)|null)', A.m.globals.get(g[1], ''))
            o = lin_add(lin_of(vt), lin_of(g), -1)[1] // 8
            fn = A.m.functions.get(es[o + 2]) if o + 2 < len(es) else None
            if fn is None: raise Broken('disposer of the shared index array not found')
            fr = [x for x in FnView(A.m, fn).effects() if x.kind == 'call']
            if len(fr) != 1 or not FREE.search(fr[0].name): out.append(('index', h[1], ('undef',), 'left to a disposer that does not return it once')); continue
            p, n = fr[0].args[1:]
            at = lambda t: A.load(l.st, simp(lin_add(lin_of(X), lin_add(lin_of(t[1]), lin_of(('p', 0)), -1))), t[2]) if isinstance(t, tuple) and t[0] == 'ld' else None
            if at(p) == h[1]: out.append(('index', h[1], at(n), 'returned by its disposer'))
    return out

def elements(A, l):
    """elements are constructed over exactly the storage obtained and destroyed over exactly the storage returned"""
    out = []; F = l.st.facts; T = l.st.trace
    same = lambda x, y: equal_under(A, F, x, y)
    for e in T:
        if e[0] in ('alloc', 'free') and e[3] in ('entry', 'row'):
            w = {'alloc': 'ctor', 'free': 'dtor'}[e[0]]
            hit = [t for t in T if t[0] == w and t[3] == e[3] and same(t[1], e[1])]
            if len(hit) != 1: out.append(e[3] + ' objects in storage %s are %s %d times' % (('obtained', 'constructed') + (len(hit),) if w == 'ctor' else ('returned', 'destroyed', len(hit)))); continue
            if not same(hit[0][2], e[2]): out.append('%s %s objects are %s in storage for %s' % (show(hit[0][2])[:80], e[3], {'ctor': 'constructed', 'dtor': 'destroyed'}[w], show(e[2])[:80]))
            if w == 'dtor' and T.index(hit[0]) > T.index(e) or w == 'ctor' and T.index(hit[0]) < T.index(e): out.append(e[3] + ' objects live outside the lifetime of their storage')
    lf = [e for e in T if e[0] == 'lfree']
    for e in lf:
        if e[3] == 'entry':
            A.seen.add(('lfree', e[4].res or e[4].idx, e[4].block.name))
            for t in T:
                if t[0] == 'dtor' and same(t[1], e[1]):
                    A.hits.add(('lfree', e[4].res or e[4].idx, e[4].block.name))
                    if not same(t[2], e[2]): out.append('%s entries are destroyed in row storage for %s' % (show(t[2])[:80], show(e[2])[:80]))
        o = {'entry': ROW['p'], 'index': ROW['j']}.get(e[3])
        if o is None: out.append('storage of unexpected kind is returned in a loop'); continue
        Y = lin_add(lin_of(e[1][1]), LIN(o), -1) if isinstance(e[1], tuple) and e[1][0] in ('ld', 'ldv') else None
        n = e[2]
        if Y is None or not (isinstance(n, tuple) and n[0] in ('ld', 'ldv') and lin_of(n[1]) == lin_add(Y, LIN(ROW['n']))): out.append('row storage %s is returned with count %s' % (show(e[1])[:80], show(n)[:80])); continue
        k2 = {'entry': 'index', 'index': 'entry'}[e[3]]
        o2 = {'entry': ROW['p'], 'index': ROW['j']}[k2]
        if len([t for t in lf if t[3] == k2 and isinstance(t[1], tuple) and t[1][0] in ('ld', 'ldv') and lin_of(t[1][1]) == lin_add(Y, LIN(o2))]) != 1: out.append('the %s storage of a row is returned but not its %s storage' % (e[3], k2))
    return out

def published(ctx):
    ctx.rule('R-published', 'after every operation the size and address a vector publishes are those of the storage it owns')
    ctx.rule('R-windows', 'the blocks of a variable-block vector are consecutive windows of its storage, each with its own size')
    m = ctx.module('m03_vec.cc'); d = by_name(m)
    pub = {}
    for f in m.functions.values():
        h = re.match(r'([vx])(data|size|p|n)_[vx]$', f.name)
        if h and f.blocks: pub[h.group(1) + h.group(2)] = [e.args[0] for e in FnView(m, f).effects() if e.kind == 'ret'][0]
    for k in sorted(d):
        if not k.startswith('k_'): continue
        t, num = ('v', k[3]) if k[2] == 'v' else ('x', k[3] if k[2] == 'x' else '1')
        A = Vec(m, d[k])
        ctx.functions.add(d[k].dem)
        bad = []; n = 0
        for l in A.leaves:
            if l.kind != 'ret': continue
            n += 1
            for p in range(int(num)):
                for a, b, what in (('p', 'data', 'address'), ('n', 'size', 'size')):
                    x, y = (at(A, l, rebase(pub[t + z], p)) for z in (a, b))
                    if not equal_under(A, l.st.facts, x, y): bad.append(('the published %s is %s, the storage has %s' % (what, show(x)[:100], show(y)[:100]), l))
        if not n: raise Broken('%s: no path' % k)
        ctx.ob('R-published', k[2:], not bad, bad[0][1].where() if bad else m.where(next(d[k].instrs())), bad[0][0] if bad else '%d paths' % n)
    blk = ('ld', simp(offsets(m)['block']), 'ptr')
    run_pairs(ctx, 'm03_vec.cc', 'R-windows', 'windows', only=lambda n: n.startswith('w_'), drop=lambda e: not (e.kind == 'store' and e.name == 'store' and any(t == blk for t in walk(e.args[0]))))
    ctx.need('R-published', 18); ctx.need('R-windows', 4)

def at(A, l, x):
    """value of an expression over the memory at this leaf"""
    from summary import mapx, is_lin
    if not isinstance(x, tuple) or not x: return x
    if x[0] == 'ld': return A.load(l.st, simp(lin_of(at(A, l, x[1]))), x[2])
    if is_lin(x):
        r = LIN(x[1])
        for t, k in x[2]: r = lin_add(r, lin_of(at(A, l, t)), k)
        return simp(r)
    return A.renorm(mapx(x, lambda y: at(A, l, y) if isinstance(y, tuple) else y))

class Vec(Paths):
    """a call on a std::vector changes that vector and its elements only"""
    def killpred(self, i, st, loop=None):
        if not self.v.callname(i).startswith('std::vector<'): return super().killpred(i, st, loop)
        a0 = lin_of(self.ev(self.v.canon(i.ops[0]), st))
        def pred(a):
            for x in [a] + [t[1] for t in walk(a) if isinstance(t, tuple) and len(t) >= 3 and t[0] in ('ld', 'ldv')]:
                d = lin_add(lin_of(x), a0, -1)
                if d[2] == () and 0 <= d[1] < 24: return True
                if any(isinstance(t, tuple) and t[0] in ('phi', 'lv') for t, _ in a0[2]) and root(x) == root(simp(a0)): return True
            return False
        return pred

def slot(m):
    """offset of free() in the virtual table of the compressed-column matrix"""
    for g, t in m.globals.items():
        if '_ZTV' in g and 'BCCSMatrix' in g:
            es = re.findall(r'ptr (?:@("[^"]*"|[\w.$]+)|null)', t)
            for k, e in enumerate(es):
                if '4free' in e: return (k - 2) * 8
    return None
