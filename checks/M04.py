"""M04: what read-only operations write, and mutable data shared between objects."""
import re, subprocess
import harness as H
from effects import Eff
from compare import split_top
from events import offsets
from summary import lin_const, lin_of, lin_add
from harness import Broken
lin_sub = lambda a, b: lin_add(lin_of(a), lin_of(b), -1)

BUILD = [('Dune::OwnerOverlapCopyCommunication', r'build\w*Interface|freeOutdatedInterfaces')]     # documented: called by the first communication that needs it
STREAM = re.compile(r'^_ZN4Dune\d+d(verb|info|warn|grave|vverb|err)E$|^_ZSt4(cout|cerr|clog)$|^_ZStL8__ioinit|^_ZN4Dune14Generic_MPI_OpI')     # the last: of dune-common

def params(dem):
    """name, parameter types and constness of a demangled function"""
    s = re.sub(r'(?: const)?(?: \[[^\]]*\])*$', '', dem) if not dem.endswith('const') else dem[:-6]
    end = s.rfind(')')
    if end < 0: return None
    d = 0; i = end
    while i >= 0:
        if s[i] == ')': d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0: break
        i -= 1
    return s[:i], [p.strip() for p in split_top(s[i+1:end])], dem.rstrip().endswith(' const')

def protected(f):
    p = params(f.dem)
    if p is None: return None
    head, ps, const = p
    sret = 1 if f.paramattrs and any('sret' in str(a) for a in f.paramattrs[0]) else 0
    out = [sret] if const else []
    k = sret + (1 if const else 0)
    for t in ps:
        if re.search(r'const\s*[&*]$', t): out.append(k)
        k += 2 if t.startswith('std::complex') and not t.endswith(('&', '*')) else 1       # two registers
    if k != len(f.params): return None
    return head, const, sorted(set(out))

def members(ctx, m, driver, want, E):
    n = 0
    ours = lambda f: f.blocks and f.dem
    for nm in sorted(m.functions):
        f = m.functions[nm]
        if not ours(f): continue
        p = protected(f)
        if p is None: continue
        head, const, prot = p
        k = head.split('::')[-1].startswith('k_')
        if not prot or not (k or const and want(m, f)): continue
        if any(re.match(c + r'<.*>::(%s)\(' % b, f.dem) for c, b in E.builders): continue
        s = E.of(nm); n += 1
        label = short(f.dem)
        ctx.functions.add((driver, label))
        bad = [(b, s.W[b]) for b in sorted(s.W) if b[0] in prot]
        for b, i in bad:
            ctx.ob('R-const', label, False, m.where(i), '%s writes %s although it is read-only' % (label, 'its object or argument' if b[1] == 0 else 'data reachable from its object or argument'))
        if not bad: ctx.ob('R-const', label, True, '', '')
    return n

def lazy(m):
    """lazily built communication data: byte ranges of the members concerned"""
    lo, hi = offsets(m, 'lo_'), offsets(m, 'hi_'); out = {}
    at = lambda x: int(lin_const(lin_sub(x, ('p', 0))))
    for k in lo: out.setdefault(k.split('_')[0], []).append((at(lo[k]), at(hi[k])))
    if set(out) != {'comm', 'novlp'}: raise Broken('lazily built data not found')
    return [('Dune::OwnerOverlapCopyCommunication', out['comm']), ('Dune::NonoverlappingSchwarzOperator', out['novlp'])]

def globals_(ctx, m, driver, E):
    n = 0
    for nm in sorted(m.functions):
        f = m.functions[nm]
        if not f.blocks or not istl(m, f): continue
        o = E.of(nm); n += 1
        own = {g: i for g, i in o.G.items() if not STREAM.search(g)}; bad = False
        label = short(f.dem or nm)
        for g, i in sorted(own.items()):
            dg = short(demangle(g))
            if i.op in ('call', 'invoke') and i.callee.kind == 'global' and i.callee.v in m.functions and g in E.of(i.callee.v).G: continue      # reported where it happens
            ctx.ob('R-global', '%s (%s)' % (dg, driver), False, m.where(i), '%s writes %s, which all objects share' % (label, dg)); bad = True
        if not bad: ctx.ob('R-global', label, True, '', '')
    return n

def demangle(g): return subprocess.run(['c++filt', g], capture_output=True, text=True).stdout.strip() or g

def istl(m, f):
    return any('/dune/istl/' in (m.loc(j.dbg)[0] or '') for j in f.instrs())

def short(s):
    s = re.sub(r'\bstd::__cxx11::', 'std::', s); d = 0; out = ''
    for c in s:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out += c
    return out[:150]

def run(ctx):
    ctx.rule('R-const', 'a const member function, and every function for what it takes by const reference, writes nothing in or reachable from it (documented lazily built communication data excepted)')
    ctx.rule('R-global', 'no function of the library writes mutable data of static storage duration (output streams excepted)')
    ctx.prefetch('m04_par.cc', H.MPI)
    m = ctx.module('m04.cc'); E = Eff(m)
    n = members(ctx, m, 'm04.cc', lambda m, f: 'Dune::' in f.dem, E)
    if n < 250: raise Broken('only %d read-only operations found' % n)
    globals_(ctx, m, 'm04.cc', E)
    p = ctx.module('m04_par.cc', H.MPI); E = Eff(p, lazy(p), BUILD)
    n = members(ctx, p, 'm04_par.cc', lambda m, f: istl(m, f) and 'Dune::' in f.dem, E)
    if n < 20: raise Broken('only %d read-only parallel operations found' % n)
    globals_(ctx, p, 'm04_par.cc', E)
    ctx.need('R-global', 500)
    q = ctx.module('m04_fac.cc'); globals_(ctx, q, 'm04_fac.cc', Eff(q))
