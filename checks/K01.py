from pairs import run_pairs
RULE = 'every-entry-once'
def run(ctx):
    ctx.rule(RULE, 'the effect summary of the product (which block operation, on which entry, input and output component, over which index ranges, under which conditions, '
                   'in which order for conflicting accesses) equals that of its specification, for all patterns and sizes')
    ds = [('k01_bcrs.cc', 'BCRSMatrix', 11), ('k01_dense.cc', 'Matrix', 11), ('k01_mtb.cc', 'MultiTypeBlockMatrix', 11),
          ('k01_scaled.cc', 'ScaledIdentityMatrix', 11), ('k01_ops.cc', 'operators', 6)]
    for d, _, _ in ds: ctx.prefetch(d)
    for d, l, n in ds: run_pairs(ctx, d, RULE, l, min=n)
    ctx.assumptions += ['block-level operations of dune-common (FieldMatrix, FieldVector and their scalar views) do what their names say',
                        'input and output vectors are distinct objects; sizes agree as documented', 'clang -O1 preserves the meaning of the code it compiles']
