import re
T = []
for f in ('bcrsmatrix.hh', 'matrix.hh', 'bvector.hh', 'basearray.hh', 'vbvector.hh', 'scaledidmatrix.hh'):
    s = open('/repo/dune/istl/' + f).read()
    for blk in re.finditer(r'#ifdef DUNE_(?:ISTL|FMatrix)_WITH_CHECKING\n(.*?)#endif', s, re.S):
        if 'private' in blk.group(1) or 'entry()' in blk.group(1): continue
        for c in re.finditer(r'if ?\((.*?)\)\s*\n?\s*DUNE_THROW\(.*?\);', blk.group(1), re.S):
            t = c.group(0); ln = s[:blk.start(1) + c.start()].count('\n') + 1
            pos = blk.start(1) + c.start()
            nth = s[:pos].count(t) + 1
            alts = [';']
            cond = c.group(1)
            if '!=' in cond and 'N()' in cond: alts += [t.replace('!=', '>', 1)]
            if '||' in cond: alts += [t.replace('||', '&&')]
            if '>=' in cond: alts += [t.replace('>=', '>')]
            if 'row<0' in cond: continue
            for k, a in enumerate(alts): T.append(('%s:%d:%d' % (f, ln, k), 'M02', 'alarm', [(f, t, a, nth)]))
