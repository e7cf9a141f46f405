"""F01: configuration keys reach the parameters they name."""
import re
import harness as H
from C01 import CP, INTERNAL
from paths import Paths, consistent, equal_under, simp
from pairs import by_name
from events import offsets, events, EvView
from absint import root
import zlib
from paths import lin_of
from summary import LIN
from harness import Broken
from summary import show, walk

KEY = re.compile(r'Dune::ParameterTree::(read|hasKey|hasSub|sub|operator\[\])')
def ev(P, st, i, nm, args, callee=None):
    if nm != 'store' and callee is None and KEY.search(nm) and i.res is not None:
        st.env[('call', i.res)] = ('fn', nm) + tuple(args); return [st]
    return None

def run(ctx):
    ctx.rule('R-solver', 'every constructor of an iterative solver from a configuration stores exactly the documented keys, with their documented types and defaults')
    m = ctx.module('f01.cc'); d = by_name(m); off = offsets(m)
    ty = {'_reduction': 'double'}
    for k in sorted(d):
        if not k.startswith('k_'): continue
        nm = k[2:]
        cells = {n: (simp(off['Loop_' + n]), ty.get(n, 'i32')) for n in ('_reduction', '_maxit', '_verbose')}
        c = {'gmres': 'GM__restart', 'fgmres': 'FG__restart', 'gpcg': 'GP__restart', 'fcg': 'RF__mmax', 'cfcg': 'CF__mmax'}.get(nm[:-2])
        for n in ('_op', '_prec') + (('_sp',) if nm.endswith('_3') else ()): cells[n] = (simp(off['Loop_' + n]), 'ptr')
        if c: cells[c.split('_')[-1]] = (simp(off[c]), 'i32')
        stored(ctx, m, d[k], d['s_' + nm], 'R-solver', nm, cells)
    ctx.need('R-solver', 20)
    precs(ctx)
    amg(ctx)

def stored(ctx, m, k, s, rule, label, cells):
    ctx.functions.add(k.dem)
    B = CP(m, s, event=ev); A = CP(m, k, event=ev, limit=20000, irrelevant=lambda c: not any(isinstance(t, tuple) and t and t[0] == 'fn' for t in walk(c)))
    bad = []; n = 0
    for la in A.leaves:
        if la.kind != 'ret': continue
        n += 1
        for lb in B.leaves:
            f = consistent(A, la.st.facts, lb.st.facts)
            if f is None: continue
            for nm, (a, ty) in cells.items():
                x, y = A.load(la.st, a, ty), B.load(lb.st, a, ty)
                if not equal_under(A, f, x, y): bad.append(('%s becomes %s, documented %s' % (nm, show(x)[:150], show(y)[:150]), la))
    if not n: raise Broken('%s: no normal return' % label)
    ctx.ob(rule, label, not bad, bad[0][1].where() if bad else m.where(next(k.instrs())), bad[0][0] if bad else '%d paths' % n)

from calls import table
def precs(ctx):
    ctx.rule('R-prec', 'every constructor of a preconditioner from a configuration does what the constructor with the documented values does')
    m = ctx.module('f01_prec.cc'); d = by_name(m); off = offsets(m)
    tr = {'ssor': 'SS', 'sor': 'SO', 'jac': 'JA', 'ilu': 'IL', 'rich': 'RI'}
    for k in sorted(d):
        if not k.startswith('k_'): continue
        nm = k[2:]; c = tr.get(nm.split('_')[0])
        cells = [(o, simp(off[o]), 'i32' if o.endswith('_n') else 'double') for o in off if c and o.startswith(c + '_') and not o.endswith('Identity_')]
        table(ctx, m, d[k], d['s_' + nm], 'R-prec', nm, cells, calls=component)
    ctx.need('R-prec', 17)
def component(nm): return bool(re.search(r'vt::|ParameterTree', nm)) and not re.match(r'(?:[\w ]+ )?(std|__gnu_cxx)::', nm)

# ------------------------------------------------------------------ multigrid
from calls import CallPaths, traces, short
from paths import same_table
class Cfg(CallPaths):
    """text read from the configuration is carried as the content of the string object; only the calls in `only` are events, and
    only conditions on the keys in `keys` are told apart"""
    def __init__(self, m, fn, only=None, keys=None, **kw):
        self.only = only; self.keys = keys; self.strings = {}
        super().__init__(m, fn, calls=component, irrelevant=self.about, limit=20000, **kw)
    def lit(self, x):
        r = root(x)
        return literal(self.m, r[1]) if isinstance(r, tuple) and r and r[0] == 'g' else None
    def lits(self, c):
        for t in walk(c):
            if isinstance(t, tuple) and len(t) >= 2 and t[0] == 'g':
                v = literal(self.m, t[1])
                if v is not None: yield v
    def about(self, c):
        q = [t for t in walk(c) if isinstance(t, tuple) and t and t[0] in ('q', 'streq', 'str')]
        if not q: return True
        return self.keys is not None and not any(l in self.keys for l in self.lits(c))
    def local(self, st, a):
        # a copy of the handle passed is as good as the handle
        r = root(a)
        if isinstance(r, tuple) and r and r[0] == 'al' and a == r:
            c = self.load(st, a, 'ptr')
            if isinstance(c, tuple) and c[0] == 'ld' and isinstance(c[1], tuple) and c[1][0] == 'p': return c[1]
        return super().local(st, a)
    def content(self, st, a): return self.load(st, a, 'ptr')
    def killpred(self, i, st, loop=None):
        nm = self.v.callname(i)
        if TEXT.search(nm): return None
        return super().killpred(i, st, loop)
    def observe(self, P, st, i, nm, args, callee=None):
        if nm == 'store': return None
        if nm.startswith('operator delete') or '__shared_count' in nm: return [st]
        if re.search(r'ParameterTree::get(\[abi:cxx11\])?\(char const\*, char const\*\)', nm) or 'ParameterTree::read<std::' in nm:
            self.store(st, args[0], 'ptr', ('text', nm) + tuple(args[1:]), i); return [st]
        if '::ToLower::operator()' in nm:
            self.store(st, args[0], 'ptr', ('lower', self.content(st, args[-1])), i); return [st]
        if re.match(r'bool std::operator==<char', nm):
            x, l = self.content(st, args[0]), self.lit(args[1])
            st.env[('call', i.res)] = ('streq', x, args[1]) if l is None else self.v.mkcmp('icmp', 'eq', lin_of(('str', x)), LIN(zlib.crc32(l.encode()))); return [st]
        n = len(st.trace); r = super().observe(P, st, i, nm, args, callee)
        if self.only is not None and len(st.trace) > n and short(nm) not in self.only: st.trace = st.trace[:n]
        return r
TEXT = re.compile(r'^operator delete|__shared_count|ParameterTree::|::ToLower::operator|std::operator==<char')
def literal(m, g):
    t = re.search(r'c"((?:[^"\\]|\\.)*)\\00"', m.globals.get(g, ''))
    return t.group(1) if t else None

def amg(ctx):
    ctx.rule('R-amg', 'the multigrid constructor sets each parameter from its documented key, in the documented order, rejects unknown option values, and then builds the hierarchies')
    m = ctx.module('f01_amg.cc'); d = by_name(m); off = offsets(m)
    def compare(k, s, label, only, keys, cells, skip=()):
        A = Cfg(m, k, only, keys); B = Cfg(m, s, only, keys)
        ctx.functions.add(k.dem)
        if not [l for l in A.leaves if l.kind == 'ret']: raise Broken('%s: no path' % label)
        A.leaves = [l for l in A.leaves if not (l.kind == 'throw' and INTERNAL.search(str(l.val)))]
        if keys is not None:                # rejections which nothing about this group's keys tells from a return belong to another group
            rets = [l for l in A.leaves if l.kind == 'ret']
            A.leaves = rets + [l for l in A.leaves if l.kind != 'ret' and not any(consistent(A, l.st.facts, r.st.facts) is not None for r in rets)]
        bad = same_table(A, B, cells, events=traces)
        ctx.ob('R-amg', label, not bad, bad[0][1].where() if bad else m.where(next(k.instrs())), bad[0][0][:900] if bad else '%d paths' % len(A.leaves))
    cells = [(n, simp(off['A0_' + n]), t) for n, t in (('iterations', 'i32'), ('relaxationFactor', 'double'), ('buildHierarchy_', 'i8'), ('coarsesolverconverged', 'i8'))]
    compare(d['k_ctor'], d['s_ctor'], 'AMG constructor', {'createCriterionAndHierarchies'}, None, cells)
    compare(d['k_crit'], d['s_crit'], 'criterion', {'createHierarchies'}, None, [])
    known = set(); fields = {'gamma': ('gamma_', 'i64'), 'additive': ('additive', 'i8'), 'presteps': ('preSteps_', 'i64'), 'poststeps': ('postSteps_', 'i64'), 'verbosity': ('verbosity_', 'i64')}
    for s in sorted(d):
        if not s.startswith('s_keys_'): continue
        g = s[7:]
        B = Cfg(m, d[s]); only = {e[0] for l in B.leaves for e in l.st.trace}; known |= only
        keys = {x for l in B.leaves for y in (l.st.trace, l.st.facts) for x in B.lits(tuple(y))}
        cl = [(fields[g][0], simp(off['A2_' + fields[g][0]]), fields[g][1])] if g in fields else []
        compare(d['k_keys'], d[s], 'AMG parameter ' + g, only, keys, cl)
    other = sorted({short(nm) for nm in called(m, d['k_keys']) if re.search(r'vt::Crit::set', nm)} - known)
    ctx.ob('R-amg', 'AMG parameters', not other, m.where(next(d['k_keys'].instrs())), 'sets %s without a documented key' % other if other else '')
    ctx.need('R-amg', 15)
def called(m, fn):
    v = EvView(m, fn)
    return [e.name for L in events(v, {}).values() for e in L if e.kind == 'call']
