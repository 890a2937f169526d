"""C20: reductions, products, stacking."""
from ._jacrule import fill

EXPLAIN = ('The value and the derivative code of every operation class are extracted as terms (all paths) and evaluated in a domain of arrays with symbolic dimensions, whose elements are closed forms of index polynomials; the Jacobian implied by the value is derived symbolically and compared entry by entry with the reported matrix, for reductions, matrix and cross products and stacking, over every axis, symbolic shapes up to rank 3, and repeated operands.')


def check(ctx, rep):
    fill(ctx, rep, 'C20', ('value', 'shape', 'none'), 'reduction-derivative')
