"""Textual LLVM-IR reader: functions, CFG, dominance, control dependence, loops.

The IR is produced by clang from /repo's current headers (see build.py).  Nothing here runs code:
the module is parsed, never executed.
"""
import re, os, subprocess, sys
sys.setrecursionlimit(20000)

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:\w+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            pos += 1
            continue
        if m.lastgroup != 'ws':
            out.append(m.group())
        pos = m.end()
    return out

class Value:
    """operand: kind in {'local','global','const','expr','meta'}"""
    __slots__ = ('kind', 'v', 'ty', 'x')
    def __init__(self, kind, v, ty=None, x=None):
        self.kind, self.v, self.ty, self.x = kind, v, ty, x
    def __repr__(self):
        return f'{self.v}' if self.kind != 'expr' else f'{self.v}({self.x})'

class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'callee', 'normal', 'unwind', 'targets', 'cases', 'pred',
                 'phis', 'gepty', 'dbg', 'text', 'block', 'idx', 'fn', 'clauses', 'argattrs', 'flags', 'callattrs')
    def __init__(self):
        self.op = None; self.res = None; self.ty = None; self.ops = []
        self.callee = None; self.normal = None; self.unwind = None; self.targets = []
        self.cases = None; self.pred = None; self.phis = None; self.gepty = None
        self.dbg = None; self.text = ''; self.block = None; self.idx = 0; self.fn = None
        self.clauses = None; self.argattrs = None; self.flags = (); self.callattrs = ()
    def __repr__(self):
        return self.text.strip()

class Block:
    __slots__ = ('name', 'instrs', 'succ', 'pred', 'fn', 'usucc')
    def __init__(self, name, fn):
        self.name = name; self.instrs = []; self.succ = []; self.pred = []; self.fn = fn; self.usucc = set()
    def __repr__(self): return f'<{self.name}>'

class Function:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []
        self.dem = name; self.attrs = ''; self.linkage = ''; self.defs = {}; self.module = None
        self.retty = None; self.dbg = None; self.paramattrs = []
    @property
    def entry(self): return self.blocks[self.order[0]]
    def instrs(self):
        for b in self.order:
            yield from self.blocks[b].instrs
    def __repr__(self): return f'<fn {self.dem}>'

class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def accept(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        if self.next() != x:
            raise ValueError(f'expected {x} at {" ".join(self.t[max(0,self.i-8):self.i+6])}')
    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return

PARAM_ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','returned','zeroext',
  'signext','inreg','nofree','immarg','swiftself','nest','noalias','allocptr','allocalign','dead_on_unwind','writable','byval','sret',
  'align','dereferenceable','dereferenceable_or_null','captures','nofpclass','range','inalloca','elementtype','preallocated','initializes'}
FMF = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}

def parse_type(p):
    t = p.next()
    if t == '{':
        el = []
        if not p.accept('}'):
            while True:
                el.append(parse_type(p))
                if p.accept('}'): break
                p.expect(',')
        ty = ('struct', tuple(el))
    elif t == '<':
        if p.peek() == '{':
            p.next(); el = []
            if not p.accept('}'):
                while True:
                    el.append(parse_type(p))
                    if p.accept('}'): break
                    p.expect(',')
            p.expect('>')
            ty = ('packed', tuple(el))
        else:
            n = int(p.next()); assert p.next() == 'x'
            e = parse_type(p); p.expect('>')
            ty = ('vec', n, e)
    elif t == '[':
        n = int(p.next()); assert p.next() == 'x', t
        e = parse_type(p); p.expect(']')
        ty = ('arr', n, e)
    elif t[0] == '%':
        ty = ('named', t[1:].strip('"'))
    else:
        ty = t
        if t == 'ptr' and p.peek() == 'addrspace':
            p.next(); p.skip_parens()
    # function type
    while p.peek() == '(' :
        # could be function type 'void (ptr, ...)'
        d = 0; p.next(); d = 1
        while d:
            x = p.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
        ty = ('fn', ty)
    return ty

CONSTEXPR = {'getelementptr','bitcast','inttoptr','ptrtoint','add','sub','mul','trunc','icmp','select','addrspacecast','xor','shl'}

def parse_value(p, ty=None):
    t = p.peek()
    if t is None: raise ValueError('value')
    c = t[0]
    if c == '%':
        p.next(); return Value('local', t[1:].strip('"'), ty)
    if c == '@':
        p.next(); return Value('global', t[1:].strip('"'), ty)
    if c == '!':
        p.next()
        if p.peek() == '(' : p.skip_parens()
        return Value('meta', t, ty)
    if t in CONSTEXPR:
        p.next()
        while p.peek() in ('inbounds','nuw','nsw','inrange'):
            p.next()
            if p.peek() == '(' and p.t[p.i-1] == 'inrange': p.skip_parens()
        if t == 'icmp': p.next()
        p.expect('(')
        args = []; gty = None
        if t == 'getelementptr':
            gty = parse_type(p); p.expect(',')
        while True:
            p.accept('inrange')
            aty = parse_type(p)
            a = parse_value(p, aty); args.append(a)
            if p.peek() == 'to':
                p.next(); parse_type(p)
            if p.accept(')'): break
            p.expect(',')
        return Value('expr', t, ty, (gty, args))
    if t in ('{','[','<') or c == 'c' and t.startswith('c"'):
        if t.startswith('c"'):
            p.next(); return Value('const', t, ty)
        # aggregate constant
        start = p.i
        op = p.next(); d = 1
        while d:
            x = p.next()
            if x in '{[<(' and len(x) == 1: d += 1
            elif x in '}]>)' and len(x) == 1: d -= 1
        return Value('const', ' '.join(p.t[start:p.i]), ty)
    if t == 'asm':
        while p.peek() != '(' : p.next()
        return Value('const','asm',ty)
    p.next()
    if t in ('dso_local_equivalent','no_cfi'):
        return parse_value(p, ty)
    if t == 'blockaddress':
        p.skip_parens(); return Value('const', t, ty)
    if t == 'true': return Value('const', 1, 'i1')
    if t == 'false': return Value('const', 0, 'i1')
    if t == 'null' or t == 'zeroinitializer': return Value('const', 0, ty)
    if t in ('undef','poison','none'): return Value('const', t, ty)
    if re.fullmatch(r'-?\d+', t) and not isinstance(ty, tuple) and ty and ty[0] == 'i':
        return Value('const', int(t), ty)
    if ty in ('double','float'):
        if t.startswith('0x'):
            import struct
            try:
                return Value('const', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16,'0')))[0], ty)
            except Exception:
                return Value('const', t, ty)
        return Value('const', float(t), ty)
    return Value('const', t, ty)

def skip_attrs(p, attrs=None):
    while p.peek() in PARAM_ATTRS:
        a = p.next()
        if a == 'align' and p.peek() not in ('(',):
            p.next()
        elif p.peek() == '(':
            if attrs is not None and a in ('sret','byval'): attrs.append(a)
            p.skip_parens(); continue
        if attrs is not None: attrs.append(a)

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

DBG = re.compile(r', !dbg !(\d+)')

def parse_instr(line):
    m = DBG.search(line)
    dbg = int(m.group(1)) if m else None
    cut = line.find(', !')
    # strip trailing metadata attachments (", !dbg !5, !tbaa !6 ...")
    body = re.sub(r'(, ![\w.]+ !(?:\d+|\{\}|DIExpression\(\)))+\s*$', '', line)
    body = re.sub(r'(, ![\w.]+ !\d+)+(\s*)$', '', body)
    ins = Instr(); ins.text = line.strip(); ins.dbg = dbg
    p = P(tokenize(body))
    if p.peek()[0] == '%' and p.peek(1) == '=':
        ins.res = p.next()[1:].strip('"'); p.next()
    op = p.next()
    while op in ('tail','musttail','notail'):
        op = p.next()
    ins.op = op
    if op in BIN:
        fl = []
        while p.peek() in ('nuw','nsw','exact','disjoint') or p.peek() in FMF: fl.append(p.next())
        ins.flags = tuple(fl)
        ty = parse_type(p); ins.ty = ty
        a = parse_value(p, ty); p.expect(','); b = parse_value(p, ty)
        ins.ops = [a, b]
    elif op == 'fneg' or op == 'freeze':
        while p.peek() in FMF: p.next()
        ty = parse_type(p); ins.ty = ty
        ins.ops = [parse_value(p, ty)]
    elif op in ('icmp','fcmp'):
        while p.peek() in FMF or p.peek() == 'samesign': p.next()
        ins.pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty); p.expect(','); b = parse_value(p, ty)
        ins.ops = [a, b]; ins.ty = 'i1'
    elif op in CAST:
        while p.peek() in ('nneg','nuw','nsw') or p.peek() in FMF: p.next()
        ty = parse_type(p); a = parse_value(p, ty)
        assert p.next() == 'to', line
        ins.ty = parse_type(p); ins.ops = [a]
    elif op == 'phi':
        while p.peek() in FMF: p.next()
        ty = parse_type(p); ins.ty = ty; ins.phis = []
        while True:
            p.expect('[')
            v = parse_value(p, ty); p.expect(',')
            b = p.next()[1:].strip('"'); p.expect(']')
            ins.phis.append((v, b))
            if not p.accept(','): break
        ins.ops = [v for v, _ in ins.phis]
    elif op == 'select':
        while p.peek() in FMF: p.next()
        vs = []
        while True:
            ty = parse_type(p); vs.append(parse_value(p, ty))
            if not p.accept(','): break
        ins.ops = vs; ins.ty = vs[1].ty
    elif op == 'getelementptr':
        while p.peek() in ('inbounds','nuw','nusw','inrange'): p.next()
        ins.gepty = parse_type(p); p.expect(',')
        while True:
            p.accept('inrange')
            ty = parse_type(p); ins.ops.append(parse_value(p, ty))
            if not p.accept(','): break
        ins.ty = 'ptr'
    elif op == 'alloca':
        p.accept('inalloca'); ins.gepty = parse_type(p); ins.ty = 'ptr'
        if p.accept(','):
            if p.peek() != 'align':
                ty = parse_type(p); ins.ops = [parse_value(p, ty)]
    elif op == 'load':
        if p.peek() == 'atomic': p.next(); ins.flags = ('atomic',)
        if p.peek() == 'volatile': p.next(); ins.flags = ins.flags + ('volatile',)
        ins.ty = parse_type(p); p.expect(',')
        ty = parse_type(p); ins.ops = [parse_value(p, ty)]
    elif op == 'store':
        if p.peek() == 'atomic': p.next(); ins.flags = ('atomic',)
        if p.peek() == 'volatile': p.next()
        ty = parse_type(p); v = parse_value(p, ty); p.expect(',')
        ty = parse_type(p); a = parse_value(p, ty)
        ins.ops = [v, a]
    elif op in ('call','invoke'):
        while p.peek() in FMF or p.peek() in ('fastcc','ccc','coldcc','tailcc') : p.next()
        ra = []
        skip_attrs(p, ra)
        ins.ty = parse_type(p)
        if isinstance(ins.ty, tuple) and ins.ty[0] == 'fn': ins.ty = ins.ty[1]
        if p.peek() == 'asm':
            while p.peek() != '(' : p.next()
            ins.callee = Value('const', 'asm')
        else:
            ins.callee = parse_value(p, 'ptr')
        p.expect('(')
        ins.argattrs = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    # debug intrinsics
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(' : d += 1
                        elif x == ')': d -= 1
                    ins.ops.append(Value('meta', 'metadata')); ins.argattrs.append([])
                else:
                    ty = parse_type(p); at = []
                    skip_attrs(p, at)
                    ins.ops.append(parse_value(p, ty)); ins.argattrs.append(at)
                if p.accept(')'): break
                p.expect(',')
        rest = []
        if op == 'invoke':
            while p.peek() != 'to': rest.append(p.next())
            p.next(); p.expect('label'); ins.normal = p.next()[1:].strip('"')
            assert p.next() == 'unwind'; p.expect('label'); ins.unwind = p.next()[1:].strip('"')
            ins.targets = [ins.normal, ins.unwind]
        else:
            while p.peek() is not None: rest.append(p.next())
        ins.callattrs = tuple(rest)
    elif op == 'br':
        if p.peek() == 'label':
            p.next(); ins.targets = [p.next()[1:].strip('"')]
        else:
            ty = parse_type(p); ins.ops = [parse_value(p, ty)]; p.expect(',')
            p.expect('label'); a = p.next()[1:].strip('"'); p.expect(',')
            p.expect('label'); b = p.next()[1:].strip('"')
            ins.targets = [a, b]
    elif op == 'switch':
        ty = parse_type(p); ins.ops = [parse_value(p, ty)]; p.expect(',')
        p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
        ins.cases = []
        ins.targets = [d]
        while not p.accept(']'):
            cty = parse_type(p); v = parse_value(p, cty); p.expect(',')
            p.expect('label'); b = p.next()[1:].strip('"')
            ins.cases.append((v.v, b)); ins.targets.append(b)
    elif op == 'ret':
        ty = parse_type(p)
        if ty != 'void': ins.ops = [parse_value(p, ty)]
    elif op == 'resume':
        ty = parse_type(p); ins.ops = [parse_value(p, ty)]
    elif op == 'landingpad':
        ins.ty = parse_type(p); ins.clauses = p.t[p.i:]
    elif op == 'extractvalue':
        ty = parse_type(p); v = parse_value(p, ty); ins.ops = [v]; p.expect(',')
        ins.flags = tuple(int(x) for x in p.t[p.i:] if re.fullmatch(r'\d+', x)); ins.ty = None
    elif op == 'insertvalue':
        ty = parse_type(p); v = parse_value(p, ty); p.expect(',')
        ty2 = parse_type(p); w = parse_value(p, ty2); p.expect(','); ins.ops = [v, w]; ins.ty = ty
        ins.flags = tuple(int(x) for x in p.t[p.i:] if re.fullmatch(r'\d+', x))
    elif op == 'unreachable':
        pass
    elif op == 'fence':
        pass
    elif op in ('atomicrmw',):
        p.accept('volatile'); ins.flags = (p.next(),)
        ty = parse_type(p); a = parse_value(p, ty); p.expect(',')
        ty = parse_type(p); v = parse_value(p, ty); ins.ops = [v, a]; ins.ty = ty
    elif op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        ty = parse_type(p); a = parse_value(p, ty); p.expect(',')
        ty = parse_type(p); c = parse_value(p, ty); p.expect(',')
        ty = parse_type(p); v = parse_value(p, ty); ins.ops = [v, a, c]; ins.ty = ty
    elif op in ('extractelement','insertelement','shufflevector','va_arg','catchpad','catchswitch','catchret','cleanupret'):
        vs = []
        try:
            while p.peek() is not None:
                ty = parse_type(p); vs.append(parse_value(p, ty))
                if not p.accept(','): break
        except Exception:
            pass
        ins.ops = vs; ins.ty = vs[0].ty if vs else None
    else:
        raise ValueError('opcode ' + op + ' :: ' + line)
    return ins

class Module:
    def __init__(self, path):
        self.path = path
        self.functions = {}; self.decls = {}; self.types = {}; self.globals = {}; self.meta = {}; self.attrgroups = {}
        self._loc = {}
        self._parse(open(path, errors='replace'))
    def _parse(self, f):
        cur = None; blk = None; pend = None
        lines = iter(f)
        header = re.compile(r'^(define|declare)\s')
        for line in lines:
            if cur is None:
                if line.startswith('define') or line.startswith('declare'):
                    fn = self._header(line)
                    if line.startswith('define'):
                        cur = fn; cur.module = self
                        self.functions[fn.name] = fn
                        blk = None
                    else:
                        self.decls[fn.name] = fn
                elif line[0] == '%':
                    m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)', line)
                    if m:
                        nm = m.group(1).strip('"'); body = m.group(2)
                        self.types[nm] = None if body.startswith('opaque') else parse_type(P(tokenize(body)))
                elif line[0] == '@':
                    m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', line)
                    self.globals[m.group(1).strip('"')] = m.group(2)
                elif line[0] == '!':
                    m = re.match(r'!(\d+) = (.*)', line)
                    if m: self.meta[int(m.group(1))] = m.group(2)
                elif line.startswith('attributes #'):
                    g, _, body = line.partition('=')
                    self.attrgroups[g.split()[1]] = set(body.replace('{', ' ').replace('}', ' ').split())
                continue
            if line.startswith('}'):
                self._finish(cur); cur = None; continue
            s = line.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', line)
            if m:
                nm = m.group(1).strip('"')
                blk = Block(nm, cur); cur.blocks[nm] = blk; cur.order.append(nm); continue
            if blk is None:
                nm = str(len(cur.params)) if True else '0'
                # unnamed entry block: numbered after unnamed params
                nm = cur._entryname
                blk = Block(nm, cur); cur.blocks[nm] = blk; cur.order.append(nm)
            # joined lines: switch / landingpad / invoke
            if s.startswith('switch') or ' = switch' in s:
                if ']' not in s.split('[',1)[-1]:
                    while True:
                        nx = next(lines); line = line.rstrip('\n') + ' ' + nx.strip()
                        if nx.strip().startswith(']'): break
            elif re.search(r'\binvoke\b', s) and ' unwind label ' not in s:
                nx = next(lines); line = line.rstrip('\n') + ' ' + nx.strip()
            elif '= landingpad' in s:
                pend = line
                ins = parse_instr(line.rstrip('\n'))
                ins.clauses = []
                self._add(blk, ins, cur); continue
            elif s.startswith('catch ') or s.startswith('cleanup') or s.startswith('filter'):
                if blk.instrs and blk.instrs[-1].op == 'landingpad':
                    blk.instrs[-1].clauses.append(s); continue
            self._add(blk, parse_instr(line.rstrip('\n')), cur)
    NOTHROW = {'__cxa_begin_catch', '__cxa_end_catch', '__cxa_allocate_exception', '__cxa_free_exception', '__clang_call_terminate'}
    def maythrow(self, ins):
        """a call that may be left by an exception"""
        nm = ins.callee.v if ins.callee is not None and ins.callee.kind == 'global' else None
        if nm is not None and (nm.startswith('llvm.') or nm in self.NOTHROW): return False
        at = set(ins.callattrs)
        for a in list(at): at |= self.attrgroups.get(a, set())
        f = self.functions.get(nm) or self.decls.get(nm)
        if f is not None:
            fa = set((f.attrs or '').split()) if isinstance(getattr(f, 'attrs', ''), str) else set()
            for a in list(fa): fa |= self.attrgroups.get(a, set())
            at |= fa
        return 'nounwind' not in at
    def _add(self, blk, ins, fn):
        ins.block = blk; ins.idx = len(blk.instrs); ins.fn = fn
        blk.instrs.append(ins)
        if ins.res is not None: fn.defs[ins.res] = ins
    def _header(self, line):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
        name = m.group(1).strip('"')
        fn = Function(name)
        fn.linkage = line[:m.start()]
        p = P(tokenize(line[m.end()-1:]))
        p.expect('(')
        unn = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')'); fn.attrs = 'vararg'; break
                ty = parse_type(p); at = []
                skip_attrs(p, at)
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()[1:].strip('"')
                    if re.fullmatch(r'\d+', nm): unn = max(unn, int(nm)+1)
                fn.params.append((nm, ty)); fn.paramattrs.append(at)
                if p.accept(')'): break
                p.expect(',')
        fn._entryname = str(unn)
        fn.attrs += ' '.join(p.t[p.i:])
        mm = re.search(r'!dbg !(\d+)', line)
        fn.dbg = int(mm.group(1)) if mm else None
        return fn
    def _finish(self, fn):
        for b in fn.order:
            B = fn.blocks[b]
            t = B.instrs[-1]
            seen = set()
            for x in t.targets:
                if x in seen: continue
                seen.add(x)
                B.succ.append(x)
                if t.op == 'invoke' and x == t.unwind: B.usucc.add(x)
        for b in fn.order:
            for s in fn.blocks[b].succ: fn.blocks[s].pred.append(b)
    def demangle(self):
        names = list(self.functions) + list(self.decls)
        self.dem = demangle_all(names)
        for n, f in self.functions.items(): f.dem = self.dem[n]
        for n, f in self.decls.items(): f.dem = self.dem[n]
        return self
    # ---- debug locations
    def loc(self, mid):
        """(file,line,inlinedAt id) innermost"""
        if mid is None: return ('?', 0, None)
        if mid in self._loc: return self._loc[mid]
        s = self.meta.get(mid, '')
        m = re.search(r'DILocation\(line: (\d+)', s)
        line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: !(\d+)', s); ia = re.search(r'inlinedAt: !(\d+)', s)
        fl = self._file(int(sc.group(1))) if sc else '?'
        r = (fl, line, int(ia.group(1)) if ia else None)
        self._loc[mid] = r
        return r
    def _file(self, sid, depth=0):
        s = self.meta.get(sid, '')
        m = re.search(r'file: !(\d+)', s)
        if m:
            f = self.meta.get(int(m.group(1)), '')
            mm = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', f)
            if mm:
                fn = mm.group(1)
                if not fn.startswith('/') and mm.group(2): fn = mm.group(2) + '/' + fn
                return fn
        m = re.search(r'scope: !(\d+)', s)
        if m and depth < 30: return self._file(int(m.group(1)), depth+1)
        return '?'
    def where(self, ins, root=os.environ.get('VT_REPO','/repo')+'/'):
        """innermost location lying in /repo, as 'file:line'"""
        mid = ins.dbg; first = None
        while mid is not None:
            f, l, ia = self.loc(mid)
            if first is None: first = (f, l)
            if f.startswith(root): return f'{f}:{l}'
            mid = ia
        return f'{first[0]}:{first[1]}' if first else f'{ins.fn.dem}'
    # ---- layouts
    def sizeof(self, ty):
        return self._lay(ty)[0]
    def _lay(self, ty):
        if isinstance(ty, str):
            if ty == 'ptr': return (8, 8)
            if ty == 'double': return (8, 8)
            if ty == 'float': return (4, 4)
            if ty == 'half': return (2, 2)
            if ty in ('x86_fp80', 'fp128'): return (16, 16)
            if ty[0] == 'i' and ty[1:].isdigit():
                n = (int(ty[1:]) + 7)//8
                a = 1
                while a < n and a < 16: a *= 2
                if n > 8: return (((n+15)//16)*16, 16)
                return (a, a)
            return (0, 1)
        k = ty[0]
        if k == 'named':
            t = self.types.get(ty[1])
            if t is None: return (0, 1)
            return self._lay(t)
        if k == 'arr':
            s, a = self._lay(ty[2]); return (s*ty[1], a)
        if k == 'vec':
            s, a = self._lay(ty[2]); return (s*ty[1], s*ty[1])
        if k in ('struct', 'packed'):
            off = 0; al = 1
            for e in ty[1]:
                s, a = self._lay(e)
                if k == 'packed': a = 1
                off = (off + a - 1)//a*a
                off += s; al = max(al, a)
            return ((off + al - 1)//al*al, al)
        return (0, 1)
    def field_off(self, ty, i):
        while ty[0] == 'named': ty = self.types[ty[1]]
        off = 0
        for j, e in enumerate(ty[1]):
            s, a = self._lay(e)
            if ty[0] == 'packed': a = 1
            off = (off + a - 1)//a*a
            if j == i: return off, e
            off += s
        raise IndexError

def demangle_all(names):
    if not names: return {}
    # strip clone suffixes
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), text=True, capture_output=True)
    out = r.stdout.split('\n')
    return dict(zip(names, out))

# ---------------------------------------------------------------- graph algorithms
def rpo(succ, entry):
    seen = set(); out = []
    st = [(entry, iter(succ(entry)))]; seen.add(entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ(s)))); break
        else:
            out.append(n); st.pop()
    out.reverse()
    return out

def dominators(nodes, succ, pred, entry):
    """immediate dominators (Cooper-Harvey-Kennedy)"""
    order = rpo(succ, entry)
    num = {n: i for i, n in enumerate(order)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for n in order:
            if n == entry: continue
            new = None
            for q in pred(n):
                if q in idom and q in num:
                    if new is None: new = q
                    else:
                        a, b = q, new
                        while a != b:
                            while num[a] > num[b]: a = idom[a]
                            while num[b] > num[a]: b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new; ch = True
    return idom, num

class CFG:
    """CFG view of a function; exceptional edges optional."""
    EXIT = '<exit>'
    def __init__(self, fn, unwind=True, noreturn_exit=False):
        self.fn = fn
        self.succ = {}; self.pred = {}
        for b in fn.order:
            B = fn.blocks[b]
            self.succ[b] = [s for s in B.succ if unwind or s not in B.usucc]
        entry = fn.order[0]
        reach = set(rpo(lambda n: self.succ[n], entry))
        self.succ = {b: s for b, s in self.succ.items() if b in reach}
        self.pred = {b: [] for b in self.succ}
        for b, ss in self.succ.items():
            for s in ss: self.pred[s].append(b)
        self.entry = entry
        self.idom, self.num = dominators(list(self.succ), lambda n: self.succ[n], lambda n: self.pred[n], entry)
        self._pd = None; self._loops = None
    def dominates(self, a, b):
        while True:
            if a == b: return True
            n = self.idom[b]
            if n == b: return False
            b = n
    def postdom(self):
        if self._pd: return self._pd
        E = self.EXIT
        rsucc = {b: list(p) for b, p in self.pred.items()}
        rpred = {b: list(s) for b, s in self.succ.items()}
        rsucc[E] = []; rpred[E] = []
        for b, s in self.succ.items():
            if not s:
                rsucc[E].append(b); rpred[b] = [E]
        # infinite loops: connect
        order = set(rpo(lambda n: rsucc[n], E))
        for b in self.succ:
            if b not in order:
                # attach
                rsucc[E].append(b); rpred[b] = rpred[b] + [E]
                order = set(rpo(lambda n: rsucc[n], E))
        ip, num = dominators(list(rsucc), lambda n: rsucc[n], lambda n: rpred[n], E)
        self._pd = ip
        return ip
    def postdominates(self, a, b):
        ip = self.postdom()
        while True:
            if a == b: return True
            n = ip.get(b)
            if n is None or n == b: return False
            b = n
    def control_deps(self):
        """block -> set of (branch block, successor) it is directly control dependent on"""
        ip = self.postdom(); cd = {b: set() for b in self.succ}
        for a, ss in self.succ.items():
            if len(ss) < 2: continue
            for s in ss:
                r = s; stop = ip.get(a)
                while r != stop and r != self.EXIT:
                    cd[r].add((a, s)); r = ip[r]
        return cd
    def loops(self):
        """list of (header, set(blocks))  natural loops merged by header"""
        if self._loops is not None: return self._loops
        L = {}
        for b, ss in self.succ.items():
            for h in ss:
                if self.dominates(h, b):
                    body = L.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(self.pred[x])
        self._loops = L
        return L
    def innermost_loop(self):
        L = self.loops(); inn = {}
        for h, body in sorted(L.items(), key=lambda t: -len(t[1])):
            for b in body: inn[b] = h
        return inn
    def reachable_from(self, b, stop=()):
        seen = set(); st = [b]
        while st:
            x = st.pop()
            if x in seen or x in stop: continue
            seen.add(x); st.extend(self.succ[x])
        return seen
