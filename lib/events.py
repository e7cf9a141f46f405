"""Event view of a function: calls and stores with canonical operands over the complete control-flow graph,
exceptional edges included, and a forward dataflow engine over it."""
import re
import ir as IR, summary as S
from summary import FnView, LIN, lin_add, lin_of, simp, walk, lin_const, is_lin

class EvView(FnView):
    """canonical values in which every call result and every phi is its own term"""
    def __init__(self, m, fn):
        super().__init__(m, fn)
        self.u = IR.CFG(fn, unwind=True)
        self.memo = {}; self.active = {}
        if self.noreturn:
            self.params = {p[0]: i for i, p in enumerate(fn.params)}
            self.loops = {}; self.inner = {}; self.parent = {}; self.tcmemo = {}
    def _phi(self, ins):
        if ins.res in self.active: return self.active[ins.res]
        me = ('phivar', ins.res)
        self.active[ins.res] = me
        try: vals = {self.canon(v) for v, p in ins.phis if p in self.u.succ}
        finally: del self.active[ins.res]
        vals.discard(me)
        if len(vals) == 1:
            v = vals.pop()
            if not any(t == me for t in walk(v)): return v
        return ('phi', ins.res)
    def canon_i(self, ins):
        if ins.op in ('call', 'invoke'):
            nm = self.callname(ins)
            if not nm.startswith('llvm.'): return ('call', ins.res)
        return super().canon_i(ins)
    def _ite(self, c, a, b): return super()._ite(c, a, b)

class Ev:
    __slots__ = ('view', 'ins', 'kind', 'name', 'args', 'block', 'callee', 'res')
    def __init__(self, view, ins, kind, name, args, callee=None):
        self.view = view; self.ins = ins; self.kind = kind; self.name = name; self.args = args
        self.block = ins.block.name; self.callee = callee
        self.res = ('call', ins.res) if ins.op in ('call', 'invoke') else None
    def where(self): return self.view.m.where(self.ins)
    def __repr__(self): return '%s %s(%s) @%s' % (self.kind, self.name, ', '.join(S.show(a) for a in self.args), self.where().split('/')[-1])

def head(dem):
    """name without parameter list and template arguments: vt::Vec::axpy, Dune::X::step"""
    s = re.sub(r'\boperator(<<|>>|<=>|<=|>=|<|>|->\*?|\(\))', lambda m: 'operator' + {'<<':'LSH','>>':'RSH','<':'LT','>':'GT','<=':'LE','>=':'GE','->':'ARROW','()':'CALL'}.get(m.group(1), 'OP'), dem)
    out = []; d = 0
    for ch in s:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0:
            if ch == '(' and ''.join(out[-9:]) != 'anonymous':
                if not ''.join(out).endswith('::') and not ''.join(out) == '': break
            out.append(ch)
    r = ''.join(out).strip()
    return r.split(' ')[-1] if ' ' in r and 'operator' not in r.split(' ')[-1] else r.split(' ')[-1]

def component_probes(m, prefix='probe_'):
    """kind -> (callee expression, object expression) of a virtual call made through a data member of arg0"""
    out = {}
    for f in m.functions.values():
        b = re.match(r'(%s\w+)' % prefix, f.dem or '')
        if not b: continue
        v = EvView(m, f)
        for i in f.instrs():
            if i.op in ('call', 'invoke') and v.callname(i) == '*indirect':
                out[b.group(1)[len(prefix):]] = (v.canon(i.callee), v.canon(i.ops[0]))
    return out

def offsets(m, prefix='off_'):
    """NAME -> address expression returned by off_NAME(object)"""
    out = {}
    for f in m.functions.values():
        b = re.match(r'(%s\w+)' % prefix, f.dem or '')
        if not b: continue
        v = EvView(m, f)
        for i in f.instrs():
            if i.op == 'ret': out[b.group(1)[len(prefix):]] = v.canon(i.ops[0])
    return out

def rebase(x, this):
    return x if this == ('p', 0) else S.subst(x, {('p', 0): this})

def events(v, probes, this=('p', 0), keepllvm=False):
    """block -> list of events"""
    pats = [(k, rebase(c, this), rebase(o, this)) for k, (c, o) in probes.items()]
    out = {}
    for b in v.u.succ:
        L = []
        for i in v.fn.blocks[b].instrs:
            if i.op in ('call', 'invoke'):
                if v.ignorable(i): continue
                nm = v.callname(i)
                if nm.startswith('llvm.') and not nm.startswith('llvm.mem') and not keepllvm: continue
                args = tuple(v.canon(o) for o in i.ops)
                if nm == '*indirect':
                    c = v.canon(i.callee); kind = 'virt'
                    for k, pc, po in pats:
                        if pc == c and args and po == args[0]: kind = k; break
                    L.append(Ev(v, i, kind, kind if kind != 'virt' else 'virt', args, c))
                else:
                    L.append(Ev(v, i, 'call', nm, args))
            elif i.op == 'store':
                L.append(Ev(v, i, 'store', 'store', (v.canon(i.ops[1]), v.canon(i.ops[0]))))
            elif i.op in ('atomicrmw', 'cmpxchg'):
                L.append(Ev(v, i, 'store', 'atomic', (v.canon(i.ops[0]) if i.op == 'cmpxchg' else v.canon(i.ops[1]), ('?',))))
            elif i.op in ('ret', 'resume', 'unreachable'):
                L.append(Ev(v, i, i.op, i.op, tuple(v.canon(o) for o in i.ops)))
        out[b] = L
    return out

def flow(v, evs, init, step, join, exc=None, edge=None, entry=None):
    """forward dataflow on the full CFG.  step(state, ev) -> state; exc(state_before, ev) -> state on the unwind edge;
    edge(state, a, s) -> state.  Returns dict event -> state before it (by id of instruction) and block entry states."""
    u = v.u
    inn = {u.entry if entry is None else entry: init}
    work = [u.entry if entry is None else entry]
    before = {}
    n = 0
    while work:
        b = work.pop()
        n += 1
        if n > 200000: raise RuntimeError('dataflow does not stabilise')
        st = inn[b]
        term = v.fn.blocks[b].instrs[-1]
        unw = st
        for e in evs[b]:
            before[id(e.ins)] = st
            if e.ins is term and term.op == 'invoke':
                unw = exc(st, e) if exc else st
            st = step(st, e)
        for s in u.succ[b]:
            if term.op == 'invoke' and s == term.unwind and s != term.normal: o = unw
            else: o = st
            if edge: o = edge(o, b, s)
            if o is None: continue
            if s not in inn: inn[s] = o; work.append(s)
            else:
                j = join(inn[s], o)
                if j != inn[s]: inn[s] = j; work.append(s)
    return before, inn

def typestate(v, evs, init, delta, exc=None):
    """powerset of automaton states; delta(q, ev) -> q' or None (irrelevant event)"""
    def step(st, e):
        r = set()
        for q in st:
            x = delta(q, e)
            r.add(q if x is None else x)
        return frozenset(r)
    return flow(v, evs, frozenset([init]), step, lambda a, b: a | b, exc)
