"""K05: scalar products and norms of distributed vectors."""
from pairs import run_pairs
from harness import MPI
def run(ctx):
    ctx.rule('R-sum', 'the masked local sum of the Hermitian products of corresponding blocks is summed over all processes; the mask is 1 at owned entries and 0 at all others of the current index set')
    run_pairs(ctx, 'k05.cc', 'R-sum', 'OwnerOverlapCopyCommunication', MPI)
