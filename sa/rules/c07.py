"""C07: shape of every reported Jacobian."""
from ._jacrule import fill

EXPLAIN = ('Symbolic shape inference: for every operation class, input, shape pattern and option value, the shape of the term '
           'compute_dr_wrt returns on each feasible path is compared with (size of value) by (size of input).')


def check(ctx, rep):
    fill(ctx, rep, None, ('shape',), 'jacobian-shape')
