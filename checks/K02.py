from pairs import run_pairs
RULE = 'each-block-once'
def run(ctx):
    ctx.rule(RULE, 'the effect summary and the returned value of the operation (block operation, operands, index range, conditions, accumulated contributions) equal those of its specification, for all sizes and patterns')
    ds = [('k02_vec.cc', 'BlockVector', 39), ('k02_mat.cc', 'Matrix', 40), ('k02_mtb.cc', 'MultiTypeBlock', 20)]
    for d, _, _ in ds: ctx.prefetch(d)
    for d, l, n in ds: run_pairs(ctx, d, RULE, l, min=n)
    ctx.assumptions += ['block-level operations of dune-common do what their names say', 'operands agree in size as documented',
                        'maximum is taken in any order (NaN is decided by the tracked sum)']
