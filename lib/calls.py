"""Tables of opaque calls: code and specification perform the same calls on the same objects, dependent ones in the same order."""
import re
from paths import Paths, equal_under, same_table, simp, lin_of, lin_add, lin_const, PView
from compare import writes
from summary import show, walk, LIN
from absint import root
from harness import Broken

def short(nm):
    while 'operator' not in nm and re.search(r'<[^<>]*>', nm): nm = re.sub(r'<[^<>]*>', '', nm)
    return nm.split('(')[0].split('::')[-1] if '(' in nm else nm

def member_of(nm, spaces=('vt::', 'Dune::')):
    """the function itself (not one of its arguments) belongs to one of the name spaces"""
    while re.search(r'<[^<>]*>', nm): nm = re.sub(r'<[^<>]*>', '', nm)
    return nm.split('(')[0].split(' ')[-1].startswith(spaces)

class CallPaths(Paths):
    """component calls (objects of namespace vt and the functions in `calls`) are events; they write their arguments but not the
    bookkeeping of the caller"""
    def __init__(self, *a, calls=None, transparent=None, detail=None, canon=False, **kw):
        self.canon = canon      # name results and locals inside the arguments of queries by the calls they come from
        self.detail = detail
        self.calls = calls or (lambda nm: 'vt::' in nm); self.transparent = transparent
        super().__init__(*a, event=self.observe, **kw)
    def observe(self, P, st, i, nm, args, callee=None):
        if nm.startswith('operator new') and i.res is not None: self.__dict__.setdefault('news', set()).add(i.res)
        if self.canon and nm.startswith('__dynamic_cast'):
            st.env[('call', i.res)] = ('q', 'dynamic_cast', (args[0], args[2]), 0); return [st]
        if self.canon and nm.startswith('bool std::operator==<char'):
            st.env[('call', i.res)] = ('q', 'equal strings', tuple(self.named(st, a) for a in args), 0); return [st]
        if nm == 'store' or not self.calls(nm): return None
        if nm == '*indirect' and isinstance(callee, tuple) and callee[0] in ('ld', 'ldv'): nm = '*virtual %s' % lin_of(callee[1])[1]      # entry of the table of virtual functions
        if i.res is not None and str(i.ty) != 'ptr' or query(nm):
            tag = tuple(k for k, e in enumerate(st.trace) if set(addrs(e[2:])) & set(addrs(args)) and e[1] != 'q')
            x = ('q', nm, tuple(self.named(st, a) for a in args) if self.canon else args, len(tag))
            st.env[('call', i.res)] = x
            if self.canon and query(nm) and str(i.ty) == 'void' and isinstance(root(args[0]), tuple) and root(args[0])[0] == 'al': st.env[('made', root(args[0])[1])] = (short(nm), tuple(b for b in (self.named(st, a) for a in args[1:]) if not show(b).startswith(('al(', 'arg'))))
            if query(nm): return [st]
        if self.canon and i.res is not None: st.env[('result', i.res)] = (short(nm), sum(e[1] == nm for e in st.trace))
        more = self.detail(self, st, nm, args) if self.detail else ()
        st.trace = st.trace + ((short(nm), nm) + tuple(self.local(st, a) for a in args) + tuple(self.local(st, a) for a in more),)
        return [st]
    def decide(self, facts, c):
        if c[:2] == ('q', 'equal strings') and isinstance(c[2], tuple):      # one string does not equal two literals
            for g in facts:
                if g[:2] == ('q', 'equal strings') and g[2][0] == c[2][0] and g[2][1] != c[2][1]: return False
        if c[0] == 'icmp' and c[1] in ('eq', 'ne') and lin_of(c[2])[1] == 0 and len(c[2][2]) == 1:
            t = c[2][2][0][0]
            if isinstance(t, tuple) and t[0] == 'call' and t[1] in self.__dict__.get('news', ()): return c[1] == 'ne'
        return super().decide(facts, c)
    def local(self, st, a):
        r = root(a)
        if not (isinstance(r, tuple) and r and (r[0] == 'al' or r[0] == 'call' and r[1] in self.__dict__.get('news', ()))): return self.named(st, a) if self.canon else a
        seen = []
        for e in st.trace:
            for x in e[2:]:
                if isinstance(x, tuple) and len(x) == 4 and x[0] == 'loc' and x[3] not in seen: seen.append(x[3])
        return ('loc', seen.index(r[1]) if r[1] in seen else len(seen), lin_add(lin_of(a), lin_of(r), -1), r[1])
    def named(self, st, a):
        if not isinstance(a, tuple): return a
        if a[:1] == ('al',):
            if ('made', a[1]) in st.env: return ('named', ) + st.env[('made', a[1])]
            hit = [(e[0], k) for e in st.trace for k, x in enumerate(e[2:]) if isinstance(x, tuple) and len(x) == 4 and x[0] == 'loc' and x[3] == a[1]]
            return ('named', ) + hit[0] if hit else a
        if a[:1] == ('call',) and ('result', a[1]) in st.env: return ('named', ) + st.env[('result', a[1])]
        return tuple(self.named(st, x) for x in a)
    def killpred(self, i, st, loop=None):
        nm = self.v.callname(i)
        if self.calls(nm):
            if self.transparent and not self.transparent(nm): return super().killpred(i, st, loop)
            return None
        return super().killpred(i, st, loop)
def query(nm): return nm.rstrip().endswith(' const') and writes(nm) is not None and not writes(nm)
def addrs(args): return [a for a in args if isinstance(a, tuple) and lin_const(a) is None and not (a and a[0] in ('f', 'icmp'))]

def pos(e, k): return e[2 + k]
BARRIER = re.compile(r'(?:::|^)(?:mgc|additiveMgc|presmooth|postsmooth|moveTo\w+)(?:<.*>)?\(')      # work on everything their object reaches
def conflict(P, f, e, g):
    if BARRIER.search(e[1]) or BARRIER.search(g[1]): return True
    we, wg = writes(e[1]), writes(g[1])
    for j in range(len(e) - 2):
        for k in range(len(g) - 2):
            if (we is None or j in we or wg is None or k in wg) and lin_const(e[2+j]) is None and equal_under(P, f, e[2+j], g[2+k]): return True
    return False
def sameloc(x, y): return isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ('loc',) and x[1:3] == y[1:3]
def same(P, f, e, g): return e[1] == g[1] and len(e) == len(g) and all(sameloc(x, y) or equal_under(P, f, x, y) if isinstance(x, tuple) else x == y for x, y in zip(e[2:], g[2:]))
def traces(A, B, f, la, lb):
    ta, tb = list(la.st.trace), list(lb.st.trace)
    m = {}; used = set()
    for j, e in enumerate(ta):
        hit = [k for k, g in enumerate(tb) if k not in used and same(A, f, e, g)]
        if not hit: return 'performs %s, which is not prescribed (prescribed: %s)' % (text(e), '; '.join(text(g) for k, g in enumerate(tb) if k not in used)[:400] or 'nothing more')
        m[j] = hit[0]; used.add(hit[0])
    for k, g in enumerate(tb):
        if k not in used: return 'lacks the prescribed %s' % text(g)
    for j in range(len(ta)):
        for k in range(j):
            if m[k] > m[j] and conflict(A, f, ta[k], ta[j]): return 'performs %s before %s, prescribed the other way round' % (text(ta[k]), text(ta[j]))
def compare_tables(A, B, cells=()): return same_table(A, B, cells, events=traces)
def text(e): return '%s(%s)' % (e[0], ', '.join(show(x)[:90] for x in e[2:]))

def table(ctx, m, k, s, rule, label, cells=(), flags=None, **kw):
    A = CallPaths(m, k, **kw); B = CallPaths(m, s, **kw)
    ctx.functions.add(k.dem[:120])
    if not [l for l in A.leaves if l.kind == 'ret']: raise Broken('%s: no path' % label)
    bad = same_table(A, B, cells, events=traces)
    ctx.ob(rule, label, not bad, bad[0][1].where() if bad else m.where(next(k.instrs())), bad[0][0][:900] if bad else '%d paths' % len(A.leaves))
    return A
