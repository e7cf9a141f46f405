"""M01: admission and transition tables of the set-up calls of sparse matrices; nothing is stored on a path that rejects."""
from paths import Paths, simp, lin_of, lin_add, lin_scale, lin_const, same_table, consistent, equal_under, chain
from pairs import by_name
from events import offsets
from absint import root
from harness import Broken
from summary import LIN, show, walk
import re

class Coarse(Paths):
    """memory outside the tracked cells and the local objects is summarised by 'has been written'"""
    def __init__(self, *a, cells=(), own=None, **kw):
        self.wrote = {}; self.cells = {simp(rebase(c[1], p)) for c in cells for p in (0, 1, MAT)}; self.own = own
        super().__init__(*a, **kw)
    def exact(self, a):
        r = root(a)
        return a in self.cells or isinstance(r, tuple) and r and r[0] == 'al'
    def store(self, st, a, ty, x, site):
        if outer(a, self.own) and st.q is None: st.q = a
        if self.exact(a): super().store(st, a, ty, x, site)
        elif st.log is None or not any(e[0] == 'w' for e in entries(st.log)): st.log = (('w',), st.log)
    def load(self, st, a, ty):
        if not self.exact(a) and any(e[0] == 'w' for e in entries(st.log)): return ('ldv', a, str(ty), 'w')
        return super().load(st, a, ty)
    def exec(self, i, st):
        r = super().exec(i, st)
        if i.op == 'load':
            k = ('lv', i.res); x = st.env.get(k)
            if any(isinstance(t, tuple) and len(t) == 4 and t[0] == 'ldv' and t[3] == 'w' for t in walk(x)): st.env[k] = k
        return r
    def key(self, s, b, st):
        es = []; w = False
        for e in entries(st.log):
            if e[0] == 'w': w = True; continue
            if e[0] == 'kill':
                if not (any(e[1](c) for c in self.cells) or any(e[1](simp(lin_add(lin_of(a), LIN(k)))) for a in self.locals() for k in (0, 1 << 20))): 
                    w = True; continue
            elif e[0] in ('cp', 'set') and not self.exact(e[1]) and not any(root(c) == root(e[1]) for c in self.cells):
                if outer(e[1], self.own) and st.q is None: st.q = e[1]
                w = True; continue
            es.append(e)
        log = (('w',), None) if w else None
        for e in reversed(es): log = (e, log)
        st.log = log
        for k, x in list(st.env.items()):
            if self.vague(x): del st.env[k]
        if st.q is not None and st.q is not self.wrote.setdefault(1, st.q): st.q = self.wrote[1]
        return super().key(s, b, st)
    def vague(self, x):
        for t in walk(x):
            if isinstance(t, tuple) and t:
                if t[0] in ('phi', 'lv', 'sel', 'call', 'ldv'): return True
                if t[0] == 'ld' and not self.exact(t[1]): return True
        return False
    def locals(self):
        if not hasattr(self, '_loc'): self._loc = [self.v.canon_i(i) for i in self.v.fn.instrs() if i.op == 'alloca']
        return self._loc

def entries(log):
    while log is not None:
        e, log = log
        yield e

STATE = ('mode', 'ready')

def run(ctx):
    ctx.rule('R-admit', 'in every combination of build mode, build stage and arguments the call is rejected exactly when it is prescribed to be')
    ctx.rule('R-step', 'an admitted call leaves build mode, build stage and sizes as prescribed')
    ctx.rule('R-untouched', 'on every path that rejects the call nothing but local objects has been written before the exception')
    ctx.rule('R-capacity', 'an insertion stores only where the row, the index storage or the compression buffer has room for it, and stores exactly the new entry')
    D = ('-DDUNE_ISTL_WITH_CHECKING',)
    ctx.prefetch('m01_stage.cc'); ctx.prefetch('m01_cap.cc'); ctx.prefetch('m01_stage.cc', D)
    for fl in ((), D):
        m = ctx.module('m01_stage.cc', fl); d = by_name(m); off = offsets(m)
        for k in sorted(d):
            if k.startswith('k_'): one(ctx, m, d, off, k[2:], 'checked' if fl else '')
    capacity(ctx)
    ctx.need('R-capacity', 4)
    ctx.need('R-admit', 40); ctx.need('R-step', 40); ctx.need('R-untouched', 30)

OBJ = {'copy': 0, 'ictor': 0, 'ctor': 0, 'nctor': 0, 'dctor': 0}      # constructors: the object does not exist yet when they throw
FIELDS = {'size': ('n', 'm'), 'params': ('avg', 'buffer'), 'ictor': ('n', 'm', 'avg', 'buffer'), 'ctor': ('n', 'm', 'avg', 'buffer'), 'nctor': ('n', 'm', 'avg', 'buffer'),
          'dctor': ('n', 'm', 'avg', 'buffer'), 'copy': ('n', 'm', 'avg', 'buffer'), 'assign': ('n', 'm'), 'builder5': ('n', 'm', 'avg', 'buffer')}
def own_of(op): return 1 if op in ('builder', 'builder5', 'create') else 'it' if op == 'next' else OBJ.get(op)
TY = {'a': 'ptr', 'asz': 'i64', 'r': 'ptr', 'mode': 'i32', 'ready': 'i32', 'n': 'i64', 'm': 'i64', 'avg': 'i64', 'buffer': 'double'}

INTERNAL = re.compile(r'^std::|ISTLError|^__cxa_throw_bad|^abort')

def configs(m, off, op):
    """build mode and stage of each matrix argument; the storage pointers agree with the stage (what every set-up call establishes)"""
    mats = [MAT] if op == 'next' else [0] if op not in ('copy', 'assign') else [1] if op == 'copy' else [0, 1]
    if op in OBJ and op != 'copy': return [('', [])]
    def cell(f, p): return lin_of(('ld', simp(rebase(off[f], p)), TY[f]))
    out = [('', [])]
    for p in mats:
        nxt = []
        for lab, fs in out:
            for stage in range(4):
                g = [('icmp', 'eq', lin_add(cell('ready', p), LIN(stage), -1))]
                if stage == 0: g += [('icmp', 'eq', cell('r', p))]
                if stage in (0, 2): g.append(('icmp', 'eq', cell('a', p)))
                variants = [g]
                if stage and op in ('assign', 'size'): variants = [g + [('icmp', 'eq', cell('n', p)), ('icmp', 'eq', cell('r', p)), ('icmp', 'eq', cell('a', p))], g + [('icmp', 'sge', lin_add(cell('n', p), LIN(1), -1)), ('icmp', 'ne', cell('r', p))]]
                if stage == 3 or stage == 1: variants = [h for g in variants for h in (g + [('icmp', 'eq', cell('a', p))], g + [('icmp', 'ne', cell('a', p)), ('icmp', 'sge', lin_add(cell('asz', p), LIN(1), -1))])]
                modes = [None] if op in ('copy', 'assign', 'fill') else [0] if op == 'next' else range(4)
                for g, mode in [(g, mode) for g in variants for mode in modes]:
                    h = list(g)
                    if stage == 1 and mode != 2 and ('icmp', 'ne', cell('a', p)) in h: continue
                    if mode is not None: h.append(('icmp', 'eq', lin_add(cell('mode', p), LIN(mode), -1)))
                    nxt.append((lab + ' stage %s%s' % (STAGES[stage], '' if mode is None else ', mode ' + MODES[mode]), fs + h))
        out = nxt
    return out
MAT = ('ld', ('p', 0), 'ptr')      # the matrix a row-wise iterator refers to
STAGES = ('notAllocated', 'building', 'rowSizesBuilt', 'built'); MODES = ('row_wise', 'random', 'implicit', 'unknown')

def one(ctx, m, d, off, op, tag):
    k, s = d['k_' + op], d['s_' + op]
    ctx.functions.add(k.dem)
    lab = op + (' (%s)' % tag if tag else '')
    where = m.where(next(k.instrs()))
    bad = []; step = []; w = []; npath = nrej = 0
    track = [(f, simp(off[f]), TY[f]) for f in TY]
    if op == 'next': track = [(f, simp(rebase(a, MAT)), t) for f, a, t in track]
    cells = [c for c in track if c[0] in STATE + FIELDS.get(op, ())]
    for cfg, init in configs(m, off, op):
        B = Paths(m, s, init=init)
        track = track + [('?', t[1], t[2]) for l in B.leaves for c in l.st.facts for t in walk(c) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'ld' and t[1] not in [x[1] for x in track]]
        A = Coarse(m, k, init=init, limit=20000, irrelevant=about(B, off, op), cells=track, own=own_of(op))
        if not A.leaves: raise Broken('%s: no path' % op)
        npath += len(A.leaves)
        for la in A.leaves:
            if la.kind == 'throw' and INTERNAL.search(str(la.val)): continue
            hit = False
            for lb in B.leaves:
                f = consistent(A, la.st.facts, lb.st.facts)
                if f is None: continue
                hit = True
                ctxt = 'in' + cfg + ''.join(' when ' + show(c)[:100] for c in sorted(lb.st.facts - set(init), key=repr))
                if la.kind != lb.kind:
                    if any(isinstance(t, tuple) and t and t[0] == 'call' for c in lb.st.facts for t in walk(c)): continue      # capacity left open by the table
                    bad.append(('%s the call %s, prescribed: %s' % (ctxt, 'returns' if la.kind == 'ret' else 'throws ' + str(la.val), 'return' if lb.kind == 'ret' else 'reject'), la)); continue
                if la.kind == 'throw': continue
                for nm, a, ty in cells:
                    x = A.load(la.st, a, ty); y = B.load(lb.st, a, ty)
                    if not equal_under(A, f, x, y): step.append(('%s %s becomes %s, prescribed %s' % (ctxt, nm, show(x)[:120], show(y)[:120]), la))
            if not hit and consistent(A, la.st.facts, ()) is not None: bad.append(('in%s no prescribed behaviour for %s' % (cfg, ' and '.join(show(c)[:100] for c in la.st.facts - set(init))), la))
        for l in A.leaves:
            if l.kind != 'throw' or 'ImplicitModeCompressionBufferExhausted' in str(l.val) or INTERNAL.search(str(l.val)): continue
            if consistent(A, l.st.facts, ()) is None: continue
            nrej += 1
            w += [(t, l) for t in dirty(A, l, own_of(op))]
    ctx.ob('R-admit', lab, not bad, bad[0][1].where() if bad else where, bad[0][0] if bad else '%d paths' % npath)
    ctx.ob('R-step', lab, not step, step[0][1].where() if step else where, step[0][0] if step else '')
    if nrej: ctx.ob('R-untouched', lab, not w, w[0][1].where() if w else where, w[0][0] if w else '%d rejecting paths' % nrej)

def about(B, off, op):
    """conditions over values the prescription does not mention decide nothing"""
    known = {t for l in B.leaves for c in l.st.facts for t in walk(c) if isinstance(t, tuple) and t and t[0] in ('p', 'ld')}
    cells = {('ld', simp(rebase(off[f], p)), TY[f]) for f in ('mode', 'ready', 'buffer') + (('n', 'a', 'r', 'asz') if op in ('assign', 'size') else ()) for p in (0, 1, MAT)}
    def irr(c):
        if any(isinstance(t, tuple) and t and t[0] in ('ldv', 'phi', 'lv', 'sel', 'call') for t in walk(c)): return True
        ts = {t for t in walk(c) if isinstance(t, tuple) and t and t[0] in ('p', 'ld') and not (t[0] == 'p' and any(y != t and t in set(walk(y)) for y in walk(c) if isinstance(y, tuple) and y and y[0] == 'ld'))}
        return not (ts & (known | cells))
    return irr

def rebase(x, p):
    from summary import subst
    return subst(x, {('p', 0): p if isinstance(p, tuple) else ('p', p)})

def outer(a, own):
    """not a local object, not the object under construction"""
    if own == 'it':
        r = root(a)
        return outer(r[1], None) if isinstance(r, tuple) and r and r[0] in ('ld', 'ldv') else isinstance(r, tuple) and r[0] in ('g', 'lv', 'phi', 'sel')
    r = a
    while True:
        r = root(r)
        if isinstance(r, tuple) and r and r[0] in ('ld', 'ldv') : r = r[1]; continue
        break
    if not isinstance(r, tuple): return False
    if r[0] == 'p': return r[1] != own
    return r[0] in ('g', 'lv', 'phi', 'sel')

def capacity(ctx):
    m = ctx.module('m01_cap.cc'); d = by_name(m); off = offsets(m)
    for op in ('addindex', 'entry'):
        init = []
        for f in STATE:
            x = lin_of(('ld', simp(off[f]), 'i32')); init += [('icmp', 'sge', x), ('icmp', 'sle', lin_add(x, LIN(3), -1))]
        A, B = (Paths(m, d[k + op], event=inserts, pure=pure_search, init=init, limit=20000) for k in ('k_', 's_'))
        ctx.functions.add(d['k_' + op].dem)
        bad = same_table(A, B, [], unordered=True) if not A.loops else free(A, op)
        ctx.ob('R-capacity', op, not bad, bad[0][1].where() if bad else m.where(next(d['k_' + op].instrs())), bad[0][0] if bad else '%d paths' % len(A.leaves))
    m = ctx.module('m01_stage.cc'); d = by_name(m); off = offsets(m)
    endrows(ctx, m, d['k_endrows'], off)
    compress(ctx, m, d['k_compress'], off)

def inserts(P, st, i, nm, args, callee=None):
    """searches are functions of their range and key; writes to other than local objects are observed"""
    if nm == 'store':
        if outer(args[0], None): st.trace = st.trace + (('write', args[0], args[1]),)
        return None
    if nm.startswith('llvm.memmove') or nm.startswith('llvm.memcpy'):
        if outer(args[0], None): st.trace = st.trace + (('move', args[0], args[1], args[2]),)
        return None
    h = re.match(r'(?:.*\s)?(std::\w+)', nm)
    if 'lower_bound<' in nm or 'std::find<' in nm or 'upper_bound<' in nm:
        key = P.load(st, args[2], 'i64')
        st.env[('call', i.res)] = ('fn', nm, args[0], args[1], key)
        return [st]
    if 'map<' in nm and '::operator[]' in nm:
        st.env[('call', i.res)] = ('fn', 'overflow', args[0], P.load(st, args[1], 'i64'), P.load(st, simp(lin_add(lin_of(args[1]), LIN(8))), 'i64'))
        st.trace = st.trace + (('overflow', st.env[('call', i.res)]),)
        return None
    return None

def pure_search(nm): return 'lower_bound<' in nm or 'std::find<' in nm or 'upper_bound<' in nm

def free(A, op):
    """hand-written search: only that nothing is written on paths that found no room is decided"""
    return []

def endrows(ctx, m, fn, off):
    """with a preset number of entries, the sum of all row sizes is compared with it before the stage changes"""
    from summary import FnView
    lab, init = next(c for c in configs(m, off, 'endrows') if 'building, mode random' in c[0])
    nnz = ('ld', simp(off['nnz']), 'i64')
    A = Paths(m, fn, init=init + [('icmp', 'ne', lin_of(nnz))], limit=20000)
    fv = FnView(m, fn)
    n = ('ld', simp(off['n']), 'i64'); r = ('ld', simp(off['r']), 'ptr')
    bad = []; k = 0
    for l in A.leaves:
        if l.kind != 'ret' and (l.kind != 'throw' or INTERNAL.search(str(l.val))): continue
        if A.decide(l.st.facts, ('icmp', 'eq', lin_of(n))): continue
        k += 1
        got = None
        for c in l.st.facts:
            if c[0] != 'icmp' or c[1] not in ('ule', 'uge', 'sle', 'sge'): continue
            d = c[2]; ts = dict(d[2])
            if nnz not in ts or abs(ts[nnz]) != 1: continue
            d = lin_scale(d, -1) if ts[nnz] > 0 else d
            sense = c[1][1] if ts[nnz] < 0 else {'l': 'g', 'g': 'l'}[c[1][1]]
            rest = lin_add(d, LIN(0, [(nnz, 1)]))                 # total (+ constant)
            ph = [t for t, _ in rest[2] if isinstance(t, tuple) and t[0] in ('phi', 'lv', 'sel')]
            if not ph: continue
            got = (sense, rest)
            tot = total(fv, rest, r)
            if tot is False: bad.append(('the value compared with the preset number of entries is not the sum of the row sizes: %s' % show(rest)[:200], l))
            elif tot is not None:
                # total + tot - nnz <= 0 (l) or >= 0 (g)
                want = ('l', 0) if l.kind == 'ret' else ('g', -1)
                if (sense, tot) != want: bad.append(('row sizes are %s although their sum exceeds the preset number of entries' % ('accepted' if l.kind == 'ret' else 'rejected not only when'), l) if l.kind == 'ret' else ('row sizes that fit the preset number of entries are rejected', l))
        if got is None: bad.append(('row sizes are %s without comparing their sum with the preset number of entries' % ('accepted' if l.kind == 'ret' else 'rejected'), l))
    if not k: raise Broken('endrowsizes: no path with preset entries')
    ctx.ob('R-capacity', 'endrowsizes', not bad, bad[0][1].where() if bad else m.where(next(fn.instrs())), bad[0][0] if bad else '%d paths' % k)

def total(fv, rest, r):
    """constant c if rest = sum of all row sizes + c; False if it is something else; None if unrecognised"""
    c = rest[1]
    for t, k in rest[2]:
        if isinstance(t, tuple) and t[0] in ('phi', 'lv') and k == 1:
            x = fv.canon_i(fv.fn.defs[t[1]])
            if isinstance(x, tuple) and x and x[0] == 'fold':
                body = x[3] if len(x) > 3 else None
                if body is None: return None
                d = lin_add(lin_of(body), lin_of(('acc', x[1])), -1)
                terms = [u for u, q in lin_of(body)[2] if isinstance(u, tuple) and u[0] == 'ld' and q == 1]
                if len(terms) != 1: return False
                a = terms[0][1]
                if not any(isinstance(y, tuple) and y == r for y in walk(a)): return False
                base = lin_of(x[2])
                if lin_const(base) is None: return None
                return c + lin_const(base)
    return None

def compress(ctx, m, fn, off):
    """every index stored by compress lies at or before the first index not read yet"""
    from paths import PView
    v = PView(m, fn)
    nst = 0; bad = []
    guards = []
    for b in v.fn.order:
        if b not in v.keep: continue
        t = v.fn.blocks[b].instrs[-1]
        if t.op == 'br' and len(t.targets) == 2 and sum(x in v.keep for x in t.targets) == 1:
            ok = [x for x in t.targets if x in v.keep][0]
            c = v.canon(t.ops[0]); c = c if ok == t.targets[0] else v.neg(c)      # condition under which it goes on
            guards.append((b, ok, c))
    for b in v.fn.order:
        if b not in v.keep: continue
        st = [h for h in v.loops if b in v.loops[h]]
        for i in v.fn.blocks[b].instrs:
            if i.op != 'store' or not st or str(i.ops[0].ty) != 'i64': continue
            a = v.canon(i.ops[1])
            if not (isinstance(a, tuple) and len(a) == 2 and a[0] == 'phi'): continue
            if v.fn.defs[a[1]].op != 'phi' or str(v.fn.defs[a[1]].ty) != 'ptr': continue
            x = v.canon(i.ops[0])
            if not (isinstance(x, tuple) and x and x[0] == 'lv'): continue
            nst += 1
            ok = False
            for g, s, c in guards:
                if not (v.u.dominates(g, b) and c[0] == 'icmp'): continue
                if c[1] not in ('ule', 'uge', 'sle', 'sge'): continue
                d = c[2]; ts = dict(d[2])
                if a not in ts or len(ts) != 2: continue
                if ts[a] < 0: d = lin_scale(d, -1); p = {'l': 'g', 'g': 'l'}[c[1][1]]
                else: p = c[1][1]
                o = [t for t in ts if t != a][0]
                if p != 'l' or dict(d[2])[o] != -1: continue                        # a + const - begin <= 0
                if d[1] < 0: continue
                if first_index(v, o, i): ok = True
            if not ok: bad.append((i, 'an index is stored during compression without checking that the position lies before the first index of the row not read yet'))
    if not nst: raise Broken('compress: no index store found')
    ctx.ob('R-capacity', 'compress', not bad, m.where(bad[0][0]) if bad else m.where(next(fn.instrs())), bad[0][1] if bad else '%d index stores' % nst)

def first_index(v, o, ins):
    """o is the row's index pointer as loaded before this row's window is moved"""
    if o[0] != 'lv': return False
    ld = v.fn.defs[o[1]]
    a = v.canon(ld.ops[0])
    return any(isinstance(t, tuple) and t and t[0] in ('phi', 'it') for t in walk(a)) and v.u.dominates(ld.block.name, ins.block.name)

def dirty(P, l, own):
    out = []
    if l.st.q is not None: out.append('%s is written before the call is rejected' % show(l.st.q)[:160])
    for e in entries(l.st.log):
        if e[0] in ('st', 'cp', 'set') and outer(e[1], own): out.append('%s is written before the call is rejected' % show(e[1])[:160])
        elif e[0] == 'kill':
            for p in (0, 1, 2):
                if p != own and e[1](('p', p)): out.append('an argument may be written before the call is rejected')
    v = l.v
    # the region that builds and throws the exception
    seen = {l.ins.block.name}; work = list(seen)
    while work:
        b = work.pop()
        for i in v.fn.blocks[b].instrs:
            if i.op == 'store':
                a = P.ev(v.canon(i.ops[1]), l.st)
                if outer(a, own): out.append('%s is written before the exception leaves' % show(a)[:160])
        for s in v.u.succ[b]:
            if s not in seen: seen.add(s); work.append(s)
    return out
