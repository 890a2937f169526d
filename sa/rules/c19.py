"""C19: determinant, log-determinant, inverse."""
from ._jacrule import fill
from ..core import NONE
from .. import jac

EXPLAIN = ('The value and the derivative code of every determinant/inverse class are extracted as terms (all paths) and evaluated in a '
           'domain of arrays with symbolic dimensions; the Jacobian implied by the value (matrix-calculus rules for det, log|det| and '
           'inverse) is compared entry by entry with the reported matrix, for single matrices and stacks of matrices of symbolic size. '
           'The class reporting the sign must return no derivative on any path.')


def check(ctx, rep):
    fill(ctx, rep, 'C19', ('value', 'shape', 'none'), 'matrix-derivative')
    for cls in ctx.I.chclasses:
        if ctx.short(cls).split('.')[-1] != 'SignLogAbsDet':
            continue
        for d in ctx.I.dterms(cls):
            ps = ctx.dr_paths(cls, d)
            cons = '%s.%s' % (ctx.short(cls), d)
            loc = ctx.fnloc(ctx.method(cls, 'compute_dr_wrt'))
            if ps is None:
                rep.und('sign-without-derivative', cons, loc, ctx.note)
                continue
            bad = [p for p in ps if p.outcome != 'raise' and p.value is not NONE]
            if bad:
                rep.bad('sign-without-derivative', cons, loc, 'the sign of the determinant reports a derivative')
            else:
                rep.ok('sign-without-derivative', cons, loc, 'no path returns a derivative')
