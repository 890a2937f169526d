"""Writes known-findings.json (run by hand when a finding is added; never by a check)."""
import json
FIXED = '''
C04 2d219a5 an input held under several names was counted several times in the chain rule
C01 66ba858 set() left its iteration mark behind when the last keyword was no declared input: later changes were not propagated
C12 d90c521 selections of the same array were evaluated between the assignments of one dogleg step
C13 119c6f0 NaN objective: trust region neither shrank nor stopped
C13 01bd185 iteration/evaluation limits reached before the first step were ignored
C02 bc18169 Concatenate kept derivatives and layout although shapes, parts or axis had changed
C02 eb1be97 repeat and roll reused index sets for other input shapes; array-valued options were unhashable keys
C03 6e7a2d6 remove_redundancy substituted inputs without registering with them
C22 4ca955d remove_redundancy merged distinct variables that held the same array
C07 302be1d derivatives of mean, clip and unary functions of multi-dimensional single elements were not two-dimensional
C07 371ed36 derivatives of atleast_nd, ChHandle and ChLambda had the wrong shape
C07 99568bf derivative of a variable assigned a plain number was no matrix
C08 5a0a18c diag and diagflat reported derivatives off the diagonal
C08 45a81fb derivative of sort did not follow the sorted order
C09 bf2915b number / Ch called a missing method
C16 72beea6 __rand__ referred to an undefined operator
C09 2dce27e transpose() method ignored all but its first axis
C09 d661eeb hstack of one-dimensional arrays used the wrong axis
C09 5a1102f mgrid and ogrid were functions
C16 4d544cd missing import of hstack in optimization
C16 c67e0f5 undefined names on error paths
C04 281bf1f derivatives were compared with None by equality
C04 2103465 derivative with respect to a selection of a selection
C04 94349f5 sum of more than two LinearOperator derivatives dropped all but two
C02 ec5623f make_dense/make_sparse were not applied to cached derivatives
C15 e53fe1a ChLambda and ChGroup added names to the terms of their class
C21 76e642c class registries were keyed by name or address
C21 8b7fefe inputs declared as Term, positional order in derived classes
C21 44ea458 classes derived from ChLambda
C21 ce21d66 super(self.__class__) recursed for ever in derived classes; pickling altered the original
C11 4197e4c a copy shared dirty names and dependent-property state with the original
C20 c3c49f7 derivative of a cross product of an array with itself
C06 bea622e ChGroup reported derivatives for objects that are not its inputs
C14 68d26ae changevars skipped values that are not finite
C14 d3f0b2e the remembered curvature point was an array that may change
C15 e0d3ad0 item assignment changed arrays shared with other variables
C20 f63698f dot with a second operand of more than two dimensions
C19 b2d0cc5 derivatives of det and slogdet for stacks of matrices
C20 @extrema derivative of extrema over an axis for arrays with an inserted axis of length one
C04 @left-product left-product and reverse mode dropped the contributions of deeper operations when the variable is a slice
C16 @show_tree_cache show_tree_cache referred to a name that was not imported
'''
FINDINGS = [
    ('C16', 'argument-ignored', 'chumpy.ch_ops.ascontiguousarray(dtype)', 'ascontiguousarray/asfarray accept and ignore dtype'),
    ('C16', 'option-dropped', "minimize(method='dogleg', bounds)", 'minimize(method="dogleg") accepts and ignores bounds'),
    ('C16', 'option-dropped', "minimize(method='dogleg', constraints)", 'minimize(method="dogleg") accepts and ignores constraints'),
    ('C16', 'option-dropped', "minimize(method='dogleg', tol)", 'minimize(method="dogleg") accepts and ignores tol'),
    ('C07', 'jacobian-shape', 'ch.tst.a', 'sample class chumpy.ch.tst returns the bare number 1 with respect to a, whatever the sizes'),
    ('C07', 'jacobian-shape', 'ch.tst.b', 'sample class chumpy.ch.tst returns the bare number 1 with respect to b, whatever the sizes'),
    ('C07', 'jacobian-shape', 'ch.tst.c', 'sample class chumpy.ch.tst returns the bare number 1 with respect to c, whatever the sizes'),
    ('C01', 'inputs', 'ch.ChGroup._result', 'ChGroup keeps its value when an input of the grouped expression that is not among its args changes'),
    ('C01', 'inputs', 'linalg.SvdV.svd_d', 'the right factor of svd keeps its value when the x of the singular-value node it reads is replaced'),
    ('C01', 'inputs', 'linalg.SvdU.svd_d', 'the left factor of svd keeps its value when the x of the singular-value node it reads is replaced'),
    ('C09', 'second-moment', 'var(a)', 'var computes the mean of the squares without subtracting the mean (an existing test pins it)'),
    ('C09', 'second-moment', 'var(a, axis=0)', 'var computes the mean of the squares (axis=0)'),
    ('C09', 'second-moment', 'var(a, axis=1)', 'var computes the mean of the squares (axis=1)'),
    ('C09', 'second-moment', 'var(a, axis=-1)', 'var computes the mean of the squares (axis=-1)'),
    ('C09', 'second-moment', 'std(a)', 'std computes the root mean square without subtracting the mean (an existing test pins it)'),
    ('C09', 'second-moment', 'std(a, axis=0)', 'std computes the root mean square (axis=0)'),
    ('C09', 'second-moment', 'std(a, axis=1)', 'std computes the root mean square (axis=1)'),
    ('C09', 'second-moment', 'std(a, axis=-1)', 'std computes the root mean square (axis=-1)'),
    ('C09', 'defaults', 'linalg.svd(full_matrices)', 'linalg.svd leaves full_matrices off by default: the factors of a non-square matrix have other shapes than numpy.linalg.svd gives'),
    ('C06', 'invented-derivative', 'ch.tst', 'sample class chumpy.ch.tst reports a derivative of 1 for any object, inputs or not'),
]


def main():
    import subprocess
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()
    fixed = []
    for l in FIXED.strip().splitlines():
        p, h, w = l.split(' ', 2)
        if h.startswith('@'):
            h = [x.split()[0] for x in log if h[1:] in x][0]
        fixed.append('fixed: property=%s %s %s' % (p, h, w))
    json.dump({'findings': [dict(property=a, rule=b, construct=c, what=d) for a, b, c, d in FINDINGS], 'fixed': fixed},
              open('/verif/known-findings.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
