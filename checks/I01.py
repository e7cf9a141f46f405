"""I01: what is taken from a Matrix Market file."""
import re
import harness as H
from calls import CallPaths
from paths import lin_const
from pairs import by_name
from harness import Broken

# what has to hold where a value of the file is used; obligations per driver function: the statements the stand-ins can make there
TEXT = dict(row='the row index of an entry lies inside the matrix or vector where it selects a row', column='a column index lies inside the matrix where it is stored',
            unread='a value is used only after the stream it was read from was found intact', entry='every stored entry is an entry of the file, both indices shifted by one, or the mirrored entry the kind of the file asks for',
            lost='every entry of the file is stored, with its mirrored entry where the kind of the file asks for one', count='as many entries are read or written as announced',
            block='entry (i,j) belongs to block (i/b, j/c)', value='a value is stored or written at its own position', dimension='sizes are those announced in the file, divided by the block size without remainder',
            format='a matrix is not read from an array file', type='the field type of the matrix is that of the file', pattern='a file without values is refused')
KINDS = dict(read='row column unread entry lost count block value', file='count unread dimension', type='count format type', complex='column value', vector='row unread dimension count value lost block',
             write='entry dimension count lost value', writev='entry dimension count')
def reports(m):
    """functions that use values of the file themselves"""
    call = {f.name: {i.callee.v for i in f.instrs() if i.op in ('call', 'invoke') and i.callee.kind == 'global'} for f in m.functions.values() if f.blocks}
    out = {f for f, c in call.items() if any(x.startswith('vt_bad_') for x in c)}
    while True:
        more = {f for f, c in call.items() if f not in out and c & out}
        if not more: return out
        out |= more
def entries(ctx):
    m = ctx.module('i01.cc', (H.STRONG,)); d = by_name(m); n = 0; hidden = reports(m)
    for nm in sorted(d):
        if not nm.startswith('k_'): continue
        f = d[nm]; bad = {}; kind = nm.split('_')[1]; what = KINDS[kind].split() + (['pattern'] if nm == 'k_type_real' else [])
        ctx.functions.add(nm); n += 1
        for i in f.instrs():
            if i.op not in ('call', 'invoke') or i.callee.kind != 'global': continue
            c = i.callee.v
            if c.startswith('vt_bad_'): bad.setdefault(c[7:], i)
            elif c in hidden: raise Broken('%s is not part of the analysed code of %s' % (m.dem.get(c, c)[:90], nm))
        for w in sorted(set(what) | set(bad)):
            ctx.ob('R-' + ('write' if kind.startswith('write') else 'read'), '%s|%s' % (nm[2:], w), w not in bad, m.where(bad[w]) if w in bad else m.where(next(f.instrs())), 'not derivable: ' + TEXT[w] if w in bad else TEXT[w])
    if n < 22: raise Broken('readers and writers not found')

WORDS = dict(array=2, coordinate=0)      # codes by position, from the enumerators the readers test
def literal(m, x):
    if isinstance(x, tuple) and x[:1] == ('g',):
        g = re.search(r'c"((?:[^"\\]|\\.)*)\\00"', m.globals.get(x[1]) or '')
        return g.group(1) if g else None
def banner(ctx):
    m = ctx.module('i01_head.cc'); d = by_name(m)
    code = {nm[7:].replace('skew', 'skew-symmetric'): consts(d[nm]) for nm in d if nm.startswith('k_code_')}
    spec = {}
    for t in ('array', 'coordinate'):
        for c in ('integer', 'real', 'complex', 'pattern'):
            for s in ('general', 'symmetric', 'skew-symmetric', 'hermitian'):
                spec[('%%MatrixMarket', 'matrix', t, c, s)] = 1 + 2*code[t] + 16*code[c] + 128*code[s]
    P = CallPaths(m, d['k_banner'], calls=lambda nm: 'vt::' in nm or 'lineFeed' in nm)
    ctx.functions.add('readMatrixMarketBanner'); got = {}
    for l in P.leaves:
        if l.kind != 'ret': continue
        v = lin_const(l.val)
        if v is None: raise Broken('the kinds of a file cannot be read off readMatrixMarketBanner')
        if v == 0: continue
        w = {}
        for g in l.st.facts:
            if g[:1] == ('q',) and 'Q::is(' in g[1]: w.setdefault(g[2][1], []).append(literal(m, g[2][2]))
        if not possible(l.st.facts, w): continue
        words = sorted(w, key=lambda x: x[3] if isinstance(x, tuple) and len(x) > 3 else 0)
        got.setdefault(tuple('/'.join(map(str, w[x])) for x in words), []).append((v, l))
    for k, v in sorted(spec.items()):
        have = got.pop(k, None)
        bad = not have or any(x != v for x, l in have)
        ctx.ob('R-word', ' '.join(k), not bad, have[0][1].where() if have else m.where(next(d['k_banner'].instrs())),
               'accepted with the meaning of these words' if not bad else 'is not accepted' if not have else 'is given the codes %s, its words mean %s' % (parts(have[0][0]), parts(v)))
    for k, v in sorted(got.items()): ctx.ob('R-word', ' '.join(k), False, v[0][1].where(), 'is accepted although it is no banner of the format')
    # the words of the writers
    n = 0
    for nm in sorted(d):
        if not nm.startswith('k_emit_'): continue
        t, c = nm.split('_')[2:4]; n += 1
        Q = CallPaths(m, d[nm], calls=lambda x: 'vt::' in x)
        for l in Q.leaves:
            if l.kind != 'ret': continue
            s = ''.join(literal(m, e[3]) or literal(m, e[3][2][0] if e[3][:1] == ('q',) else None) or '?' for e in l.st.trace if e[0] in ('put', 'putword'))
            ctx.ob('R-word', 'written: %s %s' % (t, c), s.split() == ['%%MatrixMarket', 'matrix', t, c, 'general'], l.where(), 'writes "%s"' % s)
    if n < 7: raise Broken('header writers not found')
def possible(facts, w):
    """False when a word that equals a literal would have to have other characters than the literal."""
    for g in facts:
        if g[:1] == ('not',): g, pos = g[1], False
        else: pos = True
        if g[:1] == ('q',) and 'Q::empty(' in g[1] and g[2][1] in w and pos: return False
        if g[:1] != ('icmp',) or g[1] not in ('eq', 'ne') or g[2][:1] != ('lin',) or len(g[2][2]) != 1: continue
        (q, k), = g[2][2]; eq = (g[1] == 'eq') == pos
        if q[:1] != ('q',) or abs(k) != 1: continue
        c = -g[2][1]*k
        if 'Q::size(' in q[1] and q[2][1] in w: have = {len(x) for x in w[q[2][1]]}
        elif 'Q::at(' in q[1] and q[2][1] in w and lin_const(q[2][2]) is not None:
            i = lin_const(q[2][2]); have = {ord(x[i]) for x in w[q[2][1]] if i < len(x)}
        else: continue
        if len(have) == 1 and (c in have) != eq: return False
    return True
def parts(v): return [(v-1)//2 % 8, (v-1)//16 % 8, (v-1)//128]
def consts(f):
    r = [i for i in f.instrs() if i.op == 'ret'][0].ops[0]
    if r.kind != 'const': raise Broken('enumerator')
    return int(r.v)
def run(ctx):
    ctx.rule('R-read', 'where a number of the file selects memory, becomes a size or is stored, the statements of the stand-ins follow from the code in front of it: the calls that report their violation are unreachable')
    ctx.rule('R-write', 'the writers announce the sizes of the matrix or vector and write every entry once, with its indices counted from one')
    ctx.rule('R-word', 'the words of the banner select the kind they name; what the writers put in front of their entries is accepted with the same meaning')
    entries(ctx); banner(ctx)
    ctx.assumptions += ['decimal formatting and parsing of numbers is that of the standard library (stand-in stream)', 'block shapes 1x1, 2x4 and 4x2; at most 2^40 block rows and columns',
                        'statements are discharged by the data flow analyses of LLVM (value ranges, dominating conditions, induction variables)']
