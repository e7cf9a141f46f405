"""Information flow: which values and which parts of the control flow depend on given sources, and what is done there.
Interprocedural, flow-insensitive in memory, by contexts (function, tainted parameters)."""
import re
import ir

PRINT = re.compile(r'^(std::ostream|std::basic_ostream|std::basic_ios|std::ios_base|std::basic_stringbuf|std::__cxx11::basic_o?stringstream|std::(endl|flush|setw|setprecision|scientific|fixed|ends|hex|dec|left|right|setfill)\b|std::operator<<'
                   r'|std::_?_?put|std::operator\|\(std::_Ios|Dune::DebugStream|Dune::Simd::.*operator<<|Dune::operator<<)|^(?:\S+ )?(std::basic_ostream<[^()]*>& )?std::(operator<<|endl|flush|__ostream_insert)|basic_ostream<char, std::char_traits<char>\s*>& .*operator<<|DebugStream<.*operator<<')
class Flow:
    """source(instr) -> bool; params(fn) -> set of tainted parameter numbers; sink hooks are supplied by a subclass"""
    def __init__(self, m, E):
        self.m = m; self.E = E; self.memo = {}; self.stack = []; self.cfgs = {}
    # --- to be overridden
    def source(self, fn, i): return False
    def params(self, fn): return frozenset()
    def is_target(self, fn, i): return False        # a store to a source is no leak
    def call_in_region(self, A, i, dem): pass       # call under tainted control
    def call_with_taint(self, A, i, dem, args): return None   # opaque call with tainted arguments; None: result tainted
    def store_taint(self, A, i, roots): pass        # tainted value or tainted control, roots: non-local origins
    def clean_result(self, dem): return False       # results of such calls are never tainted
    def tainted_result(self, dem): return False     # results of such calls are
    def uniform_ptr(self, A, v): return False       # pointer to untainted memory by its type
    def outputs(self, dem): return ()               # arguments through which such a call returns local values
    def cleans(self, i): return False               # instruction whose result is untainted whatever its operands
    def enter(self, dem): return True
    # ---
    def cfg(self, fn):
        if fn.name not in self.cfgs:
            c = ir.CFG(fn, unwind=False); self.cfgs[fn.name] = (c, c.control_deps())
        return self.cfgs[fn.name]
    memory = False          # contexts distinguish parameters that point to untainted local objects of the caller
    def of(self, name, tp=frozenset(), pm=frozenset(), tm=frozenset()):
        fn = self.m.functions[name]
        tp = frozenset(tp) | self.params(fn)
        k = (name, tp, pm, tm) if self.memory else (name, tp)
        if k in self.memo: return self.memo[k]
        if k in self.stack: return None
        self.stack.append(k)
        try:
            a = Fn(self, fn, tp, pm, tm); a.run(); self.memo[k] = a
        finally: self.stack.pop()
        return a

class Fn:
    def __init__(self, F, fn, tp, pm=frozenset(), tm=frozenset()):
        self.F = F; self.fn = fn; self.tp = tp; self.pm = pm; self.tm = tm      # tm: parameters that point to objects with tainted contents
        self.V = {}; self.B = set(); self.M = set(); self.ret = False; self.out = set(); self.why = {}
        self.cfg, self.cd = F.cfg(fn)
        self.eff = F.E.of(fn.name)
        self.news = {}
    def t(self, v):
        if v.kind == 'local': return v.v in self.V
        if v.kind == 'expr': return any(self.t(x) for x in v.x[1]) if v.x[1] else False
        return False
    def run(self):
        fn = self.fn
        for k, (nm, ty) in enumerate(fn.params):
            if k in self.tp: self.V[nm if nm is not None else str(k)] = 'par'
        self.Mout = {}
        for _ in range(60):
            a = (len(self.V), len(self.B), sum(map(len, self.Mout.values())), self.ret, len(self.out))
            self.control(); self.sweep(False)
            if a == (len(self.V), len(self.B), sum(map(len, self.Mout.values())), self.ret, len(self.out)): break
        self.sweep(True)
    def sweep(self, final):
        for b in self.cfg.succ:
            self.M = {(c, k) for c in ('p', 'pd') for k in self.tm} if b == next(iter(self.cfg.succ)) else set()
            self.M = self.M.union(*(self.Mout.get(p, ()) for p in self.cfg.pred.get(b, [])))
            for i in self.fn.blocks[b].instrs: self.step(i, final)
            self.Mout[b] = self.M
    def kill(self, a):
        os = self.origins(a)
        if len(os) == 1:
            (r, o), = os
            if r[0] == 'al': self.M.discard(r)
    def branch_tainted(self, b):
        t = self.fn.blocks[b].instrs[-1]
        return t.op in ('br', 'switch') and len(self.cfg.succ[b]) > 1 and self.t(t.ops[0])
    def control(self):
        ch = True
        while ch:
            ch = False
            for b, s in self.cd.items():
                if b not in self.B and any(self.branch_tainted(a) or a in self.B for a, e in s): self.B.add(b); ch = True
    def regions(self, b):
        """branch conditions which control b inside a tainted region: list of (block, tainted)"""
        out = {}; todo = [b]; seen = set()
        while todo:
            x = todo.pop()
            for a, e in self.cd.get(x, ()):
                if (a, e) in seen: continue
                seen.add((a, e)); out[a] = e; todo.append(a)
        return out
    def put(self, i, why='data'):
        if i.res is not None: self.V.setdefault(i.res, why)
    def merges(self, i):
        """phi whose choice depends on a tainted branch"""
        ps = self.cfg.pred.get(i.block.name, [])
        vs = {repr(v.v) if v.kind != 'expr' else repr(v) for v in i.ops}
        if len(vs) < 2: return False
        if any(p in self.B or self.branch_tainted(p) for p in ps): return any((p in self.B) != (i.block.name in self.B) or self.branch_tainted(p) for p in ps)
        return False
    def origins(self, v): return self.eff.val(v)
    def step(self, i, final):
        F = self.F; op = i.op; inreg = i.block.name in self.B
        if op == 'load':
            os = self.origins(i.ops[0])
            if F.source(self.fn, i) and not (self.pm and os and all(r[0] in ('al', 'new') or r[0] in ('p', 'pd') and r[1] in self.pm for r, o in os)): self.put(i, 'source'); return
            if self.t(i.ops[0]) or any(r in self.M for r, o in os) or not os and self.lost(i) in self.M: self.put(i)
        elif op == 'store':
            v, a = i.ops
            if not (inreg or self.t(v) or self.t(a)):
                if self.whole(a): self.kill(a)
                return
            if F.is_target(self.fn, i): return
            os = self.origins(a)
            if not os: self.M.add(self.lost(i))
            self.leak(i, os, final)
        elif op in ('atomicrmw', 'cmpxchg'):
            if inreg and not self.eff.refcount(i): self.leak(i, self.origins(i.ops[1] if op == 'atomicrmw' else i.ops[0]), final)
        elif op == 'phi':
            if any(self.t(v) for v in i.ops) or self.merges(i): self.put(i)
        elif op == 'ret':
            if i.ops and self.t(i.ops[0]): self.ret = True
            if i.ops and i.block.name in self.B: self.ret = True
        elif op in ('call', 'invoke'): self.call(i, inreg, final)
        elif op in ('br', 'switch', 'alloca', 'unreachable', 'resume', 'landingpad', 'fence'): pass
        elif any(self.t(v) for v in i.ops) and not F.cleans(i): self.put(i)
    def lost(self, i):
        """memory that belongs to a local object but not to one that is identified: by the type of its contents"""
        f = self.F.E.field(i)
        return ('lost', f[:2] if f else None)
    def whole(self, a):
        """the store covers a scalar local completely"""
        if a.kind != 'local': return False
        if not hasattr(self, 'defs'): self.defs = {j.res: j for j in self.fn.instrs() if j.res is not None}
        j = self.defs.get(a.v)
        return j is not None and j.op == 'alloca' and re.search(r'alloca (i\d+|float|double|ptr)\b', j.text) is not None
    def leak(self, i, os, final):
        bad = set()
        for r, o in os:
            if r[0] in ('al', 'new'): self.M.add(r)
            elif r[0] in ('g', 'gd') and r[1].startswith(('_ZSt4c', '_ZN4Dune5d')): pass
            else: bad.add(r)
        if bad:
            for r in bad:
                if r[0] in ('p', 'pd'):
                    self.out.add(r[1])
                    if r[1] in self.pm: self.M.add(r); self.M.add(('p' if r[0] == 'pd' else 'pd', r[1]))
            if final: self.F.store_taint(self, i, bad)
    def call(self, i, inreg, final):
        F = self.F
        nm = i.callee.v if i.callee.kind == 'global' else None
        ta = frozenset(k for k, v in enumerate(i.ops) if self.t(v))
        tm = frozenset(k for k, v in enumerate(i.ops) if any(r in self.M for r, o in self.origins(v)))
        if nm is None:
            if inreg and final: F.call_in_region(self, i, '<indirect>')
            if ta: self.put(i)
            return
        if nm.startswith('llvm.'):
            if nm.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                if inreg or 1 in ta or 2 in ta or ('memset' not in nm and 1 in tm): self.leak(i, self.origins(i.ops[0]), final)
                elif i.ops[0].kind == 'local' and self.defs_(i.ops[0]) == 'alloca': self.kill(i.ops[0])
            elif ta: self.put(i)
            return
        dem = F.m.dem.get(nm, nm)
        if PRINT.search(dem):
            return
        if inreg and final: F.call_in_region(self, i, dem)
        f = F.m.functions.get(nm)
        if inreg and f is not None:
            self.writes(i, nm, final)
        for k in F.outputs(dem):
            if k < len(i.ops): self.leak(i, self.origins(i.ops[k]), final)
        if F.clean_result(dem):
            if i.ops and not inreg and re.search(r'sret', i.text): self.kill(i.ops[0])
            if f is not None and f.blocks and F.enter(dem): F.of(nm, ta, self.clean(i, ta))
            return
        if F.tainted_result(dem):
            self.put(i)
            if i.ops and re.search(r'sret', i.text): self.leak(i, self.origins(i.ops[0]), final)
            return
        if not inreg and not ta and len(i.ops) > 1 and not any(k in tm for k in range(1, len(i.ops))) and re.search(r'::operator=\(', dem): self.kill(i.ops[0]); tm = tm - {0}
        if f is not None and f.blocks and F.enter(dem):
            scalar = F.memory and i.res is not None and str(i.ty) != 'ptr'      # a number: what the function makes of the contents
            r = F.of(nm, ta, self.clean(i, ta), tm if scalar else frozenset())
            if r is not None:
                if r.ret: self.put(i)
                for k in r.out:
                    if k < len(i.ops): self.leak(i, self.origins(i.ops[k]), False)
            if tm:                    # a tainted local handed over
                if not scalar or r is None: self.put(i)
                if i.ops and re.search(r'sret', i.text): self.leak(i, self.origins(i.ops[0]), False)
                if re.search(r'::operator=\(|::(basic_string|vector|pair|bigunsignedint)<?.*\(', dem) and any(k != 0 for k in tm): self.leak(i, self.origins(i.ops[0]), False)
            return
        if ta or tm:
            c = F.call_with_taint(self, i, dem, ta | tm) if final else None
            self.put(i)
        elif inreg and i.res is not None: pass
    def clean(self, i, ta):
        if not self.F.memory: return frozenset()
        ok = lambda r: r not in self.M and (r[0] in ('al', 'new') or r[0] in ('p', 'pd') and r[1] in self.pm or r[0] == 'g' and 'constant' in (self.F.m.globals.get(r[1]) or ''))
        return frozenset(k for k, v in enumerate(i.ops) if k not in ta and (self.F.uniform_ptr(self, v) or self.origins(v) and all(ok(r) for r, o in self.origins(v))))
    def definition(self, a):
        if not hasattr(self, 'defs'): self.defs = {j.res: j for j in self.fn.instrs() if j.res is not None}
        return self.defs.get(a.v) if a.kind == 'local' else None
    def defs_(self, a):
        j = self.definition(a)
        return j.op if j is not None else None
    def writes(self, i, nm, final):
        s = self.F.E.of(nm)
        for (k, d) in s.W:
            if k >= len(i.ops): continue
            v = self.origins(i.ops[k])
            if d: v = self.eff.closure(self.eff.deref(v))
            self.leak(i, v, final)
