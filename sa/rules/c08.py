"""C08: reordering operations."""
from ._jacrule import fill

EXPLAIN = ('The value and the derivative code of every operation class are extracted as terms (all paths) and evaluated in a domain of arrays with symbolic dimensions, whose elements are closed forms of index polynomials; the Jacobian implied by the value is derived symbolically and compared entry by entry with the reported matrix, for every reordering operation, symbolic shapes up to rank 3 and the options of each operation.')


def check(ctx, rep):
    fill(ctx, rep, 'C08', ('value', 'shape', 'none'), 'reordering-derivative')
