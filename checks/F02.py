"""F02: what the factories create for a name."""
from calls import table, member_of
from pairs import by_name
from harness import MPI, DIRECT, Broken
RULE = dict(wrap='R-wrap', find='R-name', amg='R-name', prec='R-name', solver='R-name', direct='R-name', dirseq='R-name', mat='R-take', sp='R-take')
def run(ctx):
    ctx.rule('R-name', 'a documented name creates the component it names, from the matrix or the operator, the configuration, the preconditioner and the scalar product of that operator; direct solvers refuse operators on several processes')
    ctx.rule('R-wrap', 'a sequential preconditioner is wrapped for the category of a parallel operator, any other is returned unchanged')
    ctx.rule('R-take', 'matrix, communication and scalar product are taken from the operator that was passed; an operator without a matrix is refused')
    for src, least in (('f02.cc', 31), ('f02_amg.cc', 9)):
        m = ctx.module(src, MPI + DIRECT); d = by_name(m); n = 0
        for nm in sorted(d):
            if not nm.startswith('k_'): continue
            table(ctx, m, d[nm], d['s_' + nm[2:]], RULE[nm.split('_')[1]], nm[2:], calls=member_of, canon=True, pure=lambda nm: '__shared_count' in nm or '__shared_ptr' in nm or nm.startswith('std::__cxx11::basic_string') and 'compare' in nm)
            n += 1
        if n < least: raise Broken('creators not found')
