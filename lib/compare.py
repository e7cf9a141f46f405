"""Compare the effect summary of a library function with that of a specification function."""
import re, itertools
from collections import Counter
import summary as S
from summary import FnView, show, LIN, lin_add, is_lin

_sig = {}
def writes(name):
    """argument positions (0 = this for methods) a call may write, from the callee's demangled signature.
    None when unknown (everything)."""
    if name in _sig: return _sig[name]
    r = None
    if name == 'store': r = {0}
    elif name.startswith('llvm.mem'): r = {0}
    elif '(' in name:
        const = name.rstrip().endswith(' const')
        # parameter list = last top-level parenthesis group
        depth = 0; end = name.rfind(')'); i = end
        while i >= 0:
            if name[i] == ')': depth += 1
            elif name[i] == '(':
                depth -= 1
                if depth == 0: break
            i -= 1
        params = split_top(name[i+1:end])
        head = name[:i]
        method = '::' in strip_angle(head)
        off = 1 if method else 0
        r = set()
        if method and not const: r.add(0)
        for k, p in enumerate(params):
            p = p.strip()
            if p.endswith('&&') or ((p.endswith('&') or p.endswith('*')) and not re.search(r'const\s*[&*]$', p)): r.add(k + off)
    if re.search(r'::(copyOwnerToAll|addOwnerCopyToOwnerCopy|addOwnerCopyToAll)\(', name): r = {2}      # the destination may be declared const
    _sig[name] = r
    return r
def strip_angle(s):
    out = []; d = 0
    for i, ch in enumerate(s):
        if ch == '<' and not s[:i].endswith('operator') and not s[:i].endswith('operator<'): d += 1
        elif ch == '>' and d and not (i and s[i-1] == '-'): d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out)
def split_top(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        elif ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

def roots(x):
    """possible base pointers of an address expression"""
    if is_lin(x):
        return {t for t, k in x[2] if k == 1 and isinstance(t, tuple) and t and t[0] in ('ld','p','al','g','call','ite','merge','intr')} or {x}
    return {x}

class Summ:
    def __init__(self, view, flips=(), skip=None, effs=None, names=None, perm=False):
        self.view = view
        effs = view.effects(skip) if effs is None else effs
        self.effs = effs
        self.names = names or Namer(effs)
        self.keys = []
        for e in effs:
            k = e.key(self.names)
            k = flip(k, e, flips)
            k = keymap(k, lambda x: S.subst(x, {})); self.keys.append(permute(k) if perm else k)
    def order(self, a, b):
        """('<'|'>'|'x', common depth) of two effects"""
        v = self.view
        d = 0
        for x, y in zip(a.stack, b.stack):
            if x == y: d += 1
            else: break
        if a.ins.block is b.ins.block:
            return ('<' if a.ins.idx < b.ins.idx else '>', d) if a is not b else ('=', d)
        common = a.stack[d-1] if d else None
        if self._reach(a.block, b.block, common): return ('<', d)
        if self._reach(b.block, a.block, common): return ('>', d)
        return ('x', d)
    def _reach(self, x, y, common):
        c = self.view.cfg
        seen = {x}; st = [x]
        while st:
            z = st.pop()
            for s in c.succ[z]:
                if s == common: continue
                if common is not None and s not in self.view.loops[common]: continue
                if s == y: return True
                if s not in seen: seen.add(s); st.append(s)
        return False

class Namer:
    """local objects are named by the order of first use in effects"""
    def __init__(self, effs): self.d = {}
    def __call__(self, x):
        if x not in self.d: self.d[x] = ('local', len(self.d))
        return self.d[x]

def has_i(x, d=None):
    return any(isinstance(t, tuple) and len(t) == 2 and t[0] == 'i' and (d is None or t[1] == d) for t in S.walk(x))
def keymap(k, f):
    return (k[0], k[1], tuple(f(x) for x in k[2]), tuple(f(x) for x in k[3]), tuple(sorted((f(x) for x in k[4]), key=repr)))
def flip(k, e, flips):
    """reverse the direction of the loops in flips, outermost first"""
    for d, h in enumerate(e.stack):
        if h not in flips: continue
        t = k[3][d]
        if t == ('?',): continue
        me = ('i', d); ph = ('ph', d)
        rev = lin_add(lin_add(t, LIN(-1)), ph, -1)
        k = keymap(k, lambda x: S.subst(S.subst(x, {me: rev}), {ph: me}))
    return k
def permute(k):
    """canonical nesting order of loops whose trip counts do not depend on each other"""
    n = len(k[3])
    if n < 2 or n > 3 or any(has_i(t) for t in k[3]) or ('?',) in k[3]: return k
    best = k
    for p in itertools.permutations(range(n)):
        m = {('i', d): ('ph', p[d]) for d in range(n)}
        back = {('ph', d): ('i', d) for d in range(n)}
        f = lambda x: S.subst(S.subst(x, m), back)
        loops = [None]*n
        for d in range(n): loops[p[d]] = k[3][d]
        q = (k[0], k[1], tuple(f(x) for x in k[2]), tuple(loops), tuple(sorted((f(x) for x in k[4]), key=repr)))
        if repr((q[3], q)) < repr((best[3], best)): best = q
    return best

def compare(code, specs, flips=True, skip=None, order=True, drop=None):
    """code: FnView; specs: list of FnView.  Returns (ok, text)."""
    best = None
    for spec in specs:
        ss = Summ(spec, skip=skip, perm=flips)
        base = code.effects(skip)
        if drop: base = [e for e in base if not drop(e)]
        loops = sorted({h for e in base for h in e.stack})
        sets = [()]
        if flips and len(loops) <= 5:
            sets = [c for n in range(len(loops)+1) for c in itertools.combinations(loops, n)]
        for fl in sets:
            cs = Summ(code, flips=set(fl), effs=base, perm=flips)
            a = Counter(cs.keys); b = Counter(ss.keys)
            if a == b:
                if not order: return True, '%d effects' % len(cs.effs)
                t = check_order(cs, ss)
                if t is None: return True, '%d effects' % len(cs.effs)
                if best is None or best[0] > 0: best = (0, t)
            else:
                extra = list((a-b).elements()); miss = list((b-a).elements())
                n = len(extra)+len(miss)
                if best is None or n < best[0]:
                    t = []
                    kw = {}
                    for k, e in zip(cs.keys, cs.effs): kw.setdefault(k, e.where())
                    for k in extra: t.append('performs   %s   at %s' % (showkey(k), kw.get(k)))
                    for k in miss: t.append('prescribed %s' % showkey(k))
                    best = (n, '\n'.join(t), kw.get(extra[0]) if extra else None)
    return False, best[1] if len(best) < 3 or not best[2] else best[1]

def showkey(k):
    nm = k[1].split('(')[0] if k[1] != 'store' else 'store'
    s = '%s(%s)' % (nm, ', '.join(show(a) for a in k[2]))
    for d, l in enumerate(k[3]): s += ' for %s in 0..%s' % ('ijklmn'[d], show(l))
    if k[4]: s += ' if ' + ' and '.join(show(c) for c in k[4])
    return s

ADD = re.compile(r'(^|::)(u|m|us)m[vth]v?$|(^|::)(operator[+-]=|axpy)$')
def additive(e):
    """in-place accumulations into the same target commute with each other"""
    if e.kind != 'call': return False
    return bool(ADD.search(strip_angle(e.name.split('(')[0]).strip()))

def touched(e, key):
    w = writes(e.name)
    n = len(key[2])
    wr = set(); rd = set()
    for i, a in enumerate(key[2]):
        (wr if (w is None or i in w) else rd).update(roots(a))
    return wr, rd

def check_order(cs, ss):
    # match effects by key
    pool = {}
    for k, e in zip(ss.keys, ss.effs): pool.setdefault(k, []).append(e)
    m = []
    for k, e in zip(cs.keys, cs.effs):
        m.append((k, e, pool[k].pop(0)))
    for i in range(len(m)):
        for j in range(i+1, len(m)):
            k1, c1, s1 = m[i]; k2, c2, s2 = m[j]
            if k1 == k2: continue
            w1, r1 = touched(c1, k1); w2, r2 = touched(c2, k2)
            con = (w1 & r2) | (w2 & r1)
            if not (additive(c1) and additive(c2)): con |= w1 & w2
            if c1.kind == 'ret' or c2.kind == 'ret': continue
            if not con: continue
            oc = cs.order(c1, c2); os = ss.order(s1, s2)
            if oc == os: continue
            if oc[0] == os[0]:
                lo, hi = sorted((oc[1], os[1]))
                e1 = [a for a in k1[2] if roots(a) & con]; e2 = [a for a in k2[2] if roots(a) & con]
                idx = {('i', d) for d in range(lo, hi)}
                if len(e1) == 1 and len(e2) == 1 and e1 == e2 and all(any(t == q for t in S.walk(e1[0])) for q in idx):
                    continue
            return 'order of\n  %s\n  %s\nis %s at loop depth %d, prescribed %s at loop depth %d (%s)' % (showkey(k1), showkey(k2), oc[0], oc[1], os[0], os[1], c1.where())
    return None
