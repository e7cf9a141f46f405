"""What a function may write: provenance of every written address (which parameter's object, directly or through pointers in it,
which global), interprocedural by summaries."""
import re
from compare import writes
from harness import Broken

MEMW = re.compile(r'^llvm\.mem(cpy|move|set)')
class Eff:
    def __init__(self, m, lazy=(), builders=()):
        self.m = m; self.sum = {}; self.stack = []; self.fields = {}; self.builders = builders; self.lazy = lazy      # [(class, [(first byte, end)])]: members whose modification is allowed
    def field(self, i):
        k = id(i)
        if k not in self.fields: self.fields[k] = tbaa(self.m, i)
        return self.fields[k]
    def of(self, name):
        if name in self.sum and name not in self.stack: return self.sum[name]
        if name in self.stack: return self.sum.setdefault(name, One(self, None))
        self.stack.append(name)
        try:
            for _ in range(6):
                o = One(self, self.m.functions[name]); o.run()
                old = self.sum.get(name)
                self.sum[name] = o
                if old is None or old.key() == o.key() or not o.rec: break
        finally: self.stack.pop()
        return self.sum[name]

def tbaa(m, i):
    if i is None: return None
    t = re.search(r'!tbaa !(\d+)', i.text)
    if not t: return None
    x = re.match(r'!\{!(\d+), !(\d+), i64 (\d+)', m.meta.get(int(t.group(1)), ''))
    if not x: return None
    b, a, o = map(int, x.groups())
    if b == a: return None
    while True:
        s = m.meta.get(b, ''); ms = [(int(p), int(q)) for p, q in re.findall(r'!(\d+), i64 (\d+)', s)]
        ms = [(p, q) for p, q in ms if q <= o]
        if not ms: return None
        p, q = max(ms, key=lambda z: z[1])
        if p == a: return (b, o)
        b, o = p, o - q
        if o > 1 << 20: return None
def mutable_global(m, g):
    t = m.globals.get(g)
    if t is None: return False        # code
    return not re.search(r'\bconstant\b', t.split('{')[0].split('[')[0]) and 'thread_local' not in t

class One:
    """W: {(param, depth)} -> instruction; G: {global} -> instruction; R: origins of the result"""
    def __init__(self, E, fn):
        self.E = E; self.fn = fn; self.W = {}; self.G = {}; self.R = set(); self.env = {}; self.mem = {}; self.rec = False; self.indirect = 0; self.opaque = []
        self.calls = set(); self.final = False; self.offs = {}
        d = E.m.functions[fn.name if fn else None].dem if fn else ''
        self.lz = [z for c, z in E.lazy if d and re.search(r'^(?:[\w:<>,* ]+ )?' + c + r'<', d)] if fn else []
    def key(self): return (frozenset(self.W), frozenset(self.G), frozenset(self.R))
    # origins: (root, offset|None); roots ('p',i) ('pd',i) ('g',name) ('gd',name) ('al',res) ('new',res)
    def val(self, v):
        if v.kind == 'local': return self.env.get(v.v, set())
        if v.kind == 'global': return {(('g', v.v), 0)}
        if v.kind == 'expr': return self.val(v.x[1][0]) if v.x[1] else set()
        return set()
    def deref(self, os, i=None):
        out = set()
        for r, o in os:
            at = o
            if self.islazy(r, o) or r[0] == 'pl': out.add((('pl', r[1]), None)); continue
            if r[0] not in ('p', 'al', 'g'): o = self.E.field(i)
            if r[0] in ('p', 'pd'): out.add((('pd', r[1]), None))
            elif r[0] in ('g', 'gd'):
                if r[0] == 'gd' or mutable_global(self.E.m, r[1]): out.add((('gd', r[1]), None))
            for (r2, o2), s in self.mem.items():
                if r2 == r and (o is None or o2 is None or o == o2):
                    if r[0] == 'new' and o is None and at is not None and None not in (z := self.offs.get((r, o2), {None})) and at not in z: continue
                    out |= s
        return out
    def closure(self, os):
        s = set(os); w = set(os)
        while w:
            w = self.deref(w) - s; s |= w
        return s
    def islazy(self, r, o):
        return bool(self.lz) and r == ('p', 0) and o is not None and any(a <= o < b for z in self.lz for a, b in z)
    def write(self, os, i):
        if not self.final or self.refcount(i): return
        os = {x for x in os if not self.islazy(*x)}
        if len({r for r, o in os}) > 1: os = self.apart(os, i)
        for r, o in os:
            if r[0] == 'p': self.W.setdefault((r[1], 0), i)
            elif r[0] == 'pd': self.W.setdefault((r[1], 1), i)
            elif r[0] in ('g', 'gd'):
                if (r[0] == 'gd' or mutable_global(self.E.m, r[1])) and not self.guarded(i): self.G.setdefault(r[1], i)
    def refcount(self, i):
        f = self.E.m.loc(i.dbg)[0]
        return f.endswith(('ext/atomicity.h', 'bits/shared_ptr_base.h', 'ext/atomicity_dispatch.h'))
    def apart(self, os, i):
        """where two pointers were found to differ, the object is not the one they would share"""
        for blk, roots in self.differ():
            if self._cfg.dominates(blk, i.block.name):
                for shared, own in roots:
                    if any(r == own for r, o in os) or any(r[0] == 'new' for r, o in os): os = {(r, o) for r, o in os if r != shared}
        return os
    def differ(self):
        if hasattr(self, '_df'): return self._df
        import ir
        if not hasattr(self, '_cfg'): self._cfg = ir.CFG(self.fn)
        out = []
        for j in self.fn.instrs():
            if j.op == 'icmp' and j.pred in ('eq', 'ne') and j.ops[0].ty == 'ptr':
                a, b = self.val(j.ops[0]), self.val(j.ops[1])
                ra, rb = {r for r, o in a}, {r for r, o in b}
                pairs = [(s, o) for s in (ra & rb) for o in (ra ^ rb) if s[0] == 'pd' and o[0] in ('pd', 'new')]
                if not pairs: continue
                for k in self.fn.instrs():
                    if k.op == 'br' and len(k.targets) == 2 and k.ops[0].kind == 'local' and k.ops[0].v == j.res:
                        t = k.targets[1 if j.pred == 'eq' else 0]
                        if len(self.fn.blocks[t].pred) == 1: out.append((t, pairs))
        self._df = out
        return out
    def guarded(self, i):
        """initialisation of a function-local static"""
        if not hasattr(self, '_gd'):
            import ir
            self._cfg = ir.CFG(self.fn); self._gd = []
            for j in self.fn.instrs():
                if j.callee is not None and j.callee.v == '__cxa_guard_acquire':
                    b = j.block.instrs[-1]
                    for s in j.block.succ:
                        if len(self.fn.blocks[s].pred) == 1 and any(k.op in ('store', 'call', 'invoke') for k in self.fn.blocks[s].instrs): self._gd.append(s)
        return any(self._cfg.dominates(s, i.block.name) for s in self._gd)
    def run(self):
        fn = self.fn
        for k, (nm, ty) in enumerate(fn.params): self.env[nm if nm is not None else str(k)] = {(('p', k), 0)} if ty == 'ptr' else ({(('pd', k), None)} if ty in ('i64',) and False else set())
        for _ in range(12):
            a = (sum(map(len, self.env.values())), sum(map(len, self.mem.values())), len(self.R))
            for i in fn.instrs(): self.step(i)
            if a == (sum(map(len, self.env.values())), sum(map(len, self.mem.values())), len(self.R)): break
        self.final = True
        for i in fn.instrs(): self.step(i)
    def put(self, i, s):
        if i.res is None or not s: return
        e = self.env.setdefault(i.res, set()); e.update(s)
        for r in {r for r, o in s}:             # pointers which walk
            if sum(1 for q, o in e if q == r) > 6: e -= {(q, o) for q, o in e if q == r}; e.add((r, None))
            elif (r, None) in e: e -= {(q, o) for q, o in e if q == r and o is not None}
    def gep(self, i):
        off = self.constoff(i)
        return {(r, None if o is None or off is None else o + off) for r, o in self.val(i.ops[0])}
    def constoff(self, i):
        m = self.E.m; off = 0; ty = i.gepty
        for k, x in enumerate(i.ops[1:]):
            if x.kind != 'const' or not isinstance(x.v, int): return None
            if k == 0: off += x.v * m.sizeof(ty); continue
            while isinstance(ty, tuple) and ty[0] == 'named': ty = m.types[ty[1]]
            if ty[0] in ('arr', 'vec'): ty = ty[2]; off += x.v * m.sizeof(ty)
            else: o, ty = m.field_off(ty, x.v); off += o
        return off
    def cell(self, r, o, i):
        """memory cell of an access: by offset in parameters and local objects, by declared field elsewhere"""
        return (r, o) if r[0] in ('p', 'al', 'g') else (r, self.E.field(i))
    def step(self, i):
        op = i.op
        if op == 'alloca': self.put(i, {(('al', i.res), 0)})
        elif op == 'getelementptr': self.put(i, self.gep(i))
        elif op in ('bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint', 'extractvalue', 'insertvalue'): 
            for v in i.ops: self.put(i, self.val(v))
        elif op in ('phi', 'select'):
            for v in (i.ops if op == 'phi' else i.ops[1:]): self.put(i, self.val(v))
        elif op == 'load':
            if i.ty == 'ptr' or (i.ty in ('i64', 'i128') or isinstance(i.ty, tuple)) and '!tbaa !' not in i.text:
                s = self.deref(self.val(i.ops[0]), i)
                if i.ty != 'ptr': s = {x for x in s if x[0][0] not in ()}
                self.put(i, s)
        elif op == 'store':
            v, a = i.ops; A = self.val(a); self.write(A, i)
            V = self.val(v)
            if V and (v.ty == 'ptr' or all(r[0] in ('al', 'p', 'new') and o is not None for r, o in A)):
                for r, o in A:
                    c = self.cell(r, o, i); self.mem.setdefault(c, set()).update(V)
                    if r[0] == 'new': self.offs.setdefault(c, set()).add(o)
        elif op in ('atomicrmw', 'cmpxchg'): self.write(self.val(i.ops[-1] if op == 'atomicrmw' and False else (i.ops[1] if op == 'atomicrmw' else i.ops[1])), i)
        elif op == 'ret' and i.ops: self.R |= self.val(i.ops[0])
        elif op in ('call', 'invoke'): self.call(i)
    def call(self, i):
        nm = i.callee.v if i.callee.kind == 'global' else None
        if nm is None:
            self.indirect += 1
            for v in i.ops: self.put(i, self.closure(self.val(v)))
            return
        if MEMW.match(nm):
            self.write(self.val(i.ops[0]), i)
            if 'memset' not in nm and i.ops[2].kind == 'const' and any(r[0] in ('p', 'al') for k in (0, 1) for r, o in self.val(i.ops[k])):     # arrays of entries hold no pointers
                S = self.deref(self.val(i.ops[1]))
                for r, o in self.val(i.ops[0]):
                    if r[0] == 'new': self.offs.setdefault((r, self.E.field(None)), set()).add(None)
                    self.mem.setdefault(self.cell(r, o, None) if r[0] not in ('p', 'al', 'g') else (r, None), set()).update(S)
            return
        if nm.startswith('llvm.') or nm in ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch'): return
        dem = self.E.m.dem.get(nm, nm) if hasattr(self.E.m, 'dem') else nm
        if dem.startswith('operator new'): self.put(i, {(('new', i.res), 0)}); return
        if dem.startswith('operator delete') or nm == 'free': return        # ownership is another property
        self.calls.add(dem)
        if re.match(r'std::_Rb_tree_(in|de)crement\(', dem): self.put(i, self.closure(self.val(i.ops[0]))); return
        if re.match(r'std::__cxx11::basic_string<[^()]*>::[\w=+]+\(', dem): self.write(self.val(i.ops[0]), i); self.put(i, self.val(i.ops[0])); return     # a string owns its characters
        f = self.E.m.functions.get(nm)
        if f is not None:
            s = self.E.of(nm)
            if s.fn is None: self.rec = True
            self.indirect += s.indirect
            for (k, d), _ in list(s.W.items()):
                if k == 0 and any(re.match(c + r'<.*>::(%s)\(' % b, dem) for c, b in self.E.builders): continue
                if k < len(i.ops):
                    v = self.val(i.ops[k]); self.write(v if d == 0 else self.closure(self.deref(v)), i)
            for g in s.G:
                if not self.guarded(i): self.G.setdefault(g, i)
            out = set()
            for r, o in s.R:
                if r[0] == 'p' and r[1] < len(i.ops): out |= {(a, None if b is None or o is None else b + o) for a, b in self.val(i.ops[r[1]])}
                elif r[0] == 'pd' and r[1] < len(i.ops): out |= self.closure(self.deref(self.val(i.ops[r[1]])))
                elif r[0] in ('g', 'gd'): out.add((r, o))
                elif r[0] == 'new': out.add((('new', i.res), 0))
            self.put(i, out)
            return
        w = writes(dem); sh = 1 if i.argattrs and any('sret' in str(a) for a in i.argattrs[0]) else 0
        if '(' not in dem: w = ()            # C library
        if w is None: w = range(len(i.ops))
        for k in w:
            k += sh
            if k < len(i.ops): self.write(self.closure(self.val(i.ops[k])) if k - sh == 0 and '::' in dem else self.val(i.ops[k]), i)
        if sh: self.write(self.val(i.ops[0]), i)
        if i.ops: self.put(i, self.val(i.ops[sh]) if len(i.ops) > sh else set())
