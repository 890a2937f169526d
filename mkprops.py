#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts live)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop('C01', 'Values are never stale',
     "Reading the value of any node gives what a freshly built copy of the same expression would give on the inputs' current contents. "
     "This holds after every sequence of input assignments (by attribute, by keyword, by item assignment, or by substituting a sub-expression, at any depth of a shared graph) interleaved with reads of any nodes. "
     "No input a value is computed from escapes change tracking.",
     ['histories', 'programs'],
     'every expression graph and every interleaving of assignments and reads',
     'tests change one input of a few fixed small graphs; staleness needs a particular history (same batch number reused, keyword order, shared ancestors)',
     ['chumpy/ch.py', 'chumpy/optimization_internal.py', 'chumpy/reordering.py'],
     [('attribute assignment invalidates the node and all its ancestors', 'chumpy/ch.py Ch.__setattr__, Ch.clear_cache'),
      ('keyword assignment batches', 'chumpy/ch.py Ch.set'),
      ('value cache consulted and filled', 'chumpy/ch.py Ch.r'),
      ('item assignment', 'chumpy/ch.py Ch.__setitem__'),
      ('optimizer writes the free variables in one batch', 'chumpy/optimization_internal.py ChInputsStacked.on_changed')],
     ['node.r'])
prop('C02', 'Reused derivative structure is reused only while still valid',
     "Asking any operation for a derivative gives what a freshly built operation would give, whatever shapes, axes, index sets, repetition counts and variables it was asked about before. "
     "Anything kept from an earlier evaluation (by one operation or shared between operations) is reused only when everything it was computed from is the same.",
     ['histories', 'inputs'],
     'every history of shape/option changes and derivative requests, over every operation that keeps structure between evaluations',
     'tests keep shapes and options fixed between derivative requests except for one axis change on sum/mean',
     ['chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/ch.py', 'chumpy/extras.py'],
     [('memo keyed by shape and axis', 'chumpy/ch_ops.py sum, mean, _broadcast_matrix, Cross'),
      ('memo keyed by reorder id', 'chumpy/reordering.py Reorder and subclasses'),
      ('memo dropped on change', 'chumpy/reordering.py Select, Concatenate; chumpy/linalg.py LogAbsDet, Pinv, SvdD')],
     ['node.dr_wrt(x)', 'node.r'])
prop('C03', 'Every holder of an input is notified of its changes',
     "A node that currently holds an input is notified when that input changes, however it came to hold it: construction, assignment, re-assignment of the same object, substitution, adding an input, de-duplication, pickling or copying. "
     "Dropping one of several uses of the same input keeps the node notified through the remaining uses, and an input a node no longer holds no longer reaches it.",
     ['histories', 'programs'],
     'every sequence of assignments, substitutions, de-duplications and pickle round trips over any graph',
     'tests check parent links once, after one pickle of one addition',
     ['chumpy/ch.py'],
     [('registration and deregistration of holders', 'chumpy/ch.py Ch.__setattr__'),
      ('re-registration after unpickling', 'chumpy/ch.py Ch.__setstate__'),
      ('no other code replaces an input behind the tracker', 'chumpy/ch.py Ch.remove_redundancy, Ch.replace, Ch.add_dterm')],
     ['node.r after changing an input'])
prop('C04', 'Derivatives follow the chain rule, each distinct input once',
     "The derivative of an expression with respect to a variable is the sum, over the expression's distinct direct inputs, of the local derivative times that input's own derivative, plus the direct term when the variable is itself an input. "
     "No contribution is dropped, counted twice or multiplied in the wrong order, also when one sub-expression feeds several operands. "
     "Forward mode, reverse mode and the left-product form compute this same sum, and no derivative is reported only when every contribution is absent.",
     ['programs', 'inputs'],
     'every expression graph, variable and differentiation mode',
     'tests differentiate a dozen fixed graphs and never one in which a computed sub-expression feeds two operands of one node',
     ['chumpy/ch.py', 'chumpy/optimization_internal.py'],
     [('forward accumulation', 'chumpy/ch.py Ch.dr_wrt, Ch.compute_rop'),
      ('reverse accumulation', 'chumpy/ch.py Ch.lmult_wrt, Ch.lop, Ch.compute_lop'),
      ('product of Jacobians', 'chumpy/ch.py Ch._superdot, Ch._compute_dr_wrt_sliced')],
     ['node.dr_wrt(x)', 'node.dr_wrt(x, reverse_mode=True)', 'node.lop(x, lhs)'])
prop('C05', 'Elementwise derivatives are the exact calculus derivatives',
     "For every elementwise function and arithmetic operator (sums, differences, products, quotients, powers, square, square root, reciprocal, exponential, logarithm, trigonometric and inverse trigonometric functions, absolute value, negation, clip, elementwise maximum/minimum, gamma, sum of squares), the local derivative with respect to each operand is the mathematical derivative of the value the node reports. "
     "This holds at every finite point where that derivative exists, for operands of any broadcastable shapes, and when both operands are the same object.",
     ['inputs'],
     'every finite real operand value, every pair of broadcastable shapes, operands distinct or identical',
     'tests check the unary functions at the single point 0.25 and two or three binary ones at random points',
     ['chumpy/ch_ops.py', 'chumpy/extras.py'],
     [('value and derivative formula pairs', 'chumpy/ch_ops.py UnaryElemwise subclasses, divide, add, subtract, power, multiply, clip, Extremum, SumOfSquares; chumpy/extras.py gamma'),
      ('placement of broadcast derivatives', 'chumpy/ch_ops.py _broadcast_matrix, _broadcast_setup')],
     ['node.dr_wrt(operand)'])
prop('C06', 'No derivative is silently missing or invented',
     "Each operation reports a derivative with respect to every one of its inputs that its value varies with, for every shape and option, or raises an error; reporting none is reserved for piecewise-constant operations (rounding, sign, comparisons, logical tests) and for combinations whose derivative is identically zero. "
     "It reports no local derivative with respect to an object that is not one of its inputs.",
     ['inputs', 'configurations', 'programs'],
     'every operation in the library, every input of it, every option and shape, operands distinct or identical',
     'tests ask each operation for the derivative of at most one input, mostly with default options',
     ['chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/logic.py', 'chumpy/extras.py', 'chumpy/ch.py'],
     [('per-operation derivative dispatch', 'every compute_dr_wrt in chumpy/*.py')],
     ['node.dr_wrt(x) is None'])
prop('C07', 'Jacobians are (size of value) by (size of variable)',
     "The derivative an operation reports with respect to one of its inputs is a two-dimensional matrix with one row per element of the operation's value and one column per element of the input. "
     "This holds for every input shape, including single elements, single rows and higher-dimensional arrays; a bare number is returned only when both have exactly one element.",
     ['inputs', 'configurations'],
     'every operation, every input shape and option',
     'tests use one shape per operation, usually one-dimensional or square',
     ['chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/extras.py', 'chumpy/ch.py'],
     [('explicit shapes and diagonals of the returned matrices', 'every compute_dr_wrt in chumpy/*.py')],
     ['node.dr_wrt(x).shape'])
prop('C08', 'Reordering operations move derivatives exactly as they move values',
     "For indexing, reshaping, transposing, axis rolling and swapping, tiling, repeating, rolling, rotating, diagonal extraction/construction and sorting, each element of the value that came from an input element has derivative one with respect to that element and zero with respect to all others; elements that came from no input element have zero derivatives. "
     "The reordering applied for the derivative is the one applied for the value, with the same options.",
     ['inputs', 'configurations'],
     'every shape, index expression and option of every reordering operation',
     'tests differentiate one transpose, a few slices and nothing else of this family',
     ['chumpy/reordering.py', 'chumpy/ch.py'],
     [('one-hot matrix built by applying the value reordering to element numbers', 'chumpy/reordering.py Reorder.compute_dr_wrt, Sort, Diag, DiagFlat'),
      ('index numbers selected by the same key', 'chumpy/ch.py Ch.__getitem__, chumpy/reordering.py Select'),
      ('identity for pure reshapes', 'chumpy/reordering.py Reshape, AtleastNd')],
     ['node.dr_wrt(a)'])
prop('C09', "Operators and numpy-named functions compute numpy's values",
     "Every arithmetic and comparison operator, in direct and reflected form, and every function offered under a numpy name gives the value numpy's operator or function of that name gives for the same arguments. "
     "Operands are used in the order written, every accepted option reaches the computation, and options left out have numpy's defaults.",
     ['inputs', 'configurations'],
     'every argument value and option combination of every offered operator and function',
     'tests call a third of the functions, mostly with default options and one order of operands',
     ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/logic.py', 'chumpy/ch_random.py'],
     [('operator overloads', 'chumpy/ch.py Ch.__add__ ... Ch.__ne__'),
      ('value computations', 'compute_r / reorder / f / _f / _r of the classes in chumpy/ch_ops.py, reordering.py, linalg.py, logic.py'),
      ('generated wrappers', 'chumpy/ch_ops.py, chumpy/ch_random.py, chumpy/logic.py (exec loops)')],
     ['node.r'])
prop('C10', 'Evaluation only computes: values are read-only and data untouched',
     "The value a node reports is a float64 array of at least one dimension that cannot be written through. "
     "Computing values or derivatives never modifies the contents of any input, option, previously returned array or matrix, or structure shared between operations.",
     ['inputs', 'histories'],
     'every operation, every evaluation order',
     'tests rarely look at inputs or earlier results again after an evaluation',
     ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/extras.py', 'chumpy/optimization_internal.py'],
     [('conversion and write protection', 'chumpy/ch.py Ch.r, Ch.__array__'),
      ('copies taken before in-place edits', 'chumpy/ch_ops.py NanDivide, _broadcast_matrix; chumpy/extras.py Interp3D; chumpy/optimization_internal.py')],
     ['node.r', 'node.r.flags.writeable', 'input.r after an evaluation'])
prop('C11', 'Pickling and copying preserve a graph and leave the original alone',
     "A pickled, unpickled or copied expression evaluates like the original, reacts to later changes of its own inputs, and shares nothing changeable with the original. "
     "Taking the pickle or copy does not alter the original in any observable way.",
     ['programs', 'histories'],
     'every expression type, pickled at any point of its life (before or after evaluations)',
     'one test pickles one addition of two scalars before any derivative was taken',
     ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py'],
     [('what is dropped and what is restored', 'chumpy/ch.py Ch.__getstate__, Ch.__setstate__, ChLambda.__getstate__; chumpy/reordering.py Concatenate.__getstate__'),
      ('copy is a pickle round trip', 'chumpy/ch_ops.py copy')],
     ['pickle.loads(pickle.dumps(node)).r', 'node after pickle.dumps(node)'])
prop('C12', 'Dogleg minimisation keeps exactly the steps that improve',
     "A trial step is kept if and only if it improves on the current residual, every kept step strictly lowers the sum of squared residuals, and after a rejected trial all free variables are back at the last kept point. "
     "When the minimiser calls the user's callback or returns, the free variables hold the last kept point, each variable receiving its own part of the parameter vector in its own shape, including when the free variables are selections of larger arrays.",
     ['inputs', 'histories'],
     'every objective, start point, trust radius and stopping option',
     'tests run four problems to convergence and look only at the final residual',
     ['chumpy/optimization_internal.py'],
     [('accept/reject and restore', 'chumpy/optimization_internal.py minimize_dogleg'),
      ('improvement test', 'chumpy/optimization_internal.py DoglegState.Trial'),
      ('vector to variables', 'chumpy/optimization_internal.py ChInputsStacked.on_changed, setup_objective')],
     ['free variables at on_step and on return'])
prop('C13', 'Dogleg minimisation always stops, within the limits given',
     "Every trial that is not an improvement shrinks the trust region, whatever value the objective takes there (NaN included), so the search for a step cannot go on for ever. "
     "The number of iterations never exceeds the iteration limit, no further trial starts once the evaluation limit is reached, and every stopping threshold the user gives is tested on each iteration it applies to.",
     ['inputs', 'configurations'],
     'every objective (also one returning NaN), every combination of limits and thresholds',
     'tests use well-behaved objectives and check results, not counts',
     ['chumpy/optimization_internal.py'],
     [('trust-region update', 'chumpy/optimization_internal.py DoglegState.updateRadius'),
      ('loop exits', 'chumpy/optimization_internal.py minimize_dogleg')],
     ['number of objective evaluations', 'termination'])
prop('C14', 'scipy-based minimisation evaluates at the point the solver asked for',
     "In every method other than dogleg, each objective, gradient and curvature value handed to the solver is computed after all free variables were set from exactly the vector the solver asked about, and a remembered result is handed out only for the vector it was computed at. "
     "The vector is cut into the variables in one fixed order without gaps or overlaps, and on return the variables hold the solver's solution.",
     ['histories', 'configurations'],
     'every method, solver call sequence, number and shape of free variables',
     'one test runs one method with one free variable',
     ['chumpy/optimization.py'],
     [('vector to variables', 'chumpy/optimization.py minimize.changevars'),
      ('solver callbacks', 'chumpy/optimization.py minimize.residuals, scalar_jacfunc, ns_jacfunc, hessp, hess')],
     ['values and gradients passed to scipy.optimize.minimize'])
prop('C15', 'Expressions do not influence each other',
     "Building, evaluating or changing one expression never changes the declared inputs, options, defaults or results of another expression or operation class. "
     "State shared by all instances is limited to caches whose entries are determined by their keys.",
     ['histories', 'programs'],
     'every pair of independently built expressions and every order of operations on them',
     'tests build each expression in isolation',
     ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/optimization_internal.py'],
     [('per-instance declarations', 'chumpy/ch.py ChLambda.__init__, ChGroup.__init__, Ch.add_dterm, Ch.__new__'),
      ('class-level registries', 'chumpy/ch.py Ch.setup_terms, Ch.parm_declarations, _props_for')],
     ['second expression after operations on the first'])
prop('C16', 'Unsupported requests are refused with the intended error',
     "A call either does what was asked or raises the error the library intends for that case; it never fails on an internal slip such as an undefined name, and never silently ignores an argument it accepts. "
     "This covers every option value and every rarely used code path.",
     ['inputs', 'configurations'],
     'every public function, method and option, on every code path including error paths',
     'tests exercise no error path and few options',
     ['chumpy/*.py'],
     [('explicit refusals', 'raise/assert statements in chumpy/ch_ops.py, linalg.py, reordering.py, optimization*.py'),
      ('name and attribute bindings', 'every module of chumpy')],
     ['exception type raised'])
prop('C17', 'Dependent cached properties are recomputed exactly when needed',
     "A property declared to depend on named inputs is recomputed on the first read after any of those inputs was assigned or changed at any depth, and returns the kept value otherwise. "
     "Every input such a property of the library uses is among those it declares.",
     ['histories', 'programs'],
     'every class with dependent properties, every history of changes and reads',
     'one test counts recomputations of one property of one class',
     ['chumpy/ch.py', 'chumpy/linalg.py'],
     [('dependency declaration and check', 'chumpy/ch.py depends_on'),
      ('marking out of date', 'chumpy/ch.py Ch._invalidate_cacheprop_names, Ch.clear_cache, Ch.__setattr__')],
     ['property value after a change'])
prop('C18', 'Change hooks run before anything is computed from changed inputs',
     "Before a node's value or derivative is computed or returned, its change hook has run with the name of every input that was assigned or changed at any depth since the hook last ran. "
     "A name is never lost: it stays pending until a hook run that includes it.",
     ['histories', 'programs'],
     'every history of changes and reads, every way of asking for values and derivatives',
     'tests observe the hook of one class for one assignment',
     ['chumpy/ch.py'],
     [('pending names', 'chumpy/ch.py Ch.__setattr__, Ch.clear_cache, Ch._call_on_changed'),
      ('hook before use', 'chumpy/ch.py Ch.r, Ch.dr_wrt, Ch.lop, Ch.lmult_wrt, Ch._compute_dr_wrt_sliced')],
     ['arguments of on_changed'])
prop('C19', 'Determinant, log-determinant and inverse have exact derivatives',
     "The derivatives of the determinant, the log of its absolute value and the matrix inverse are the exact matrix-calculus derivatives of the values reported, for every invertible matrix. "
     "The sign of the determinant is reported without derivative.",
     ['inputs'],
     'every invertible matrix of any size',
     'tests check one or two matrices with finite differences',
     ['chumpy/linalg.py'],
     [('closed-form derivatives', 'chumpy/linalg.py Det, LogAbsDet, SignLogAbsDet, Inv')],
     ['linalg.det(a).dr_wrt(a)', 'linalg.inv(a).dr_wrt(a)'])
prop('C20', 'Reductions, products and stacking have exact derivatives',
     "The derivatives of sums and means (over everything or one axis), extrema over an axis, cumulative sums, matrix products, cross products and concatenation/stacking are the exact derivatives of the values reported. "
     "This holds for operands of every supported shape and axis, and when the same object is used for several operands.",
     ['inputs', 'configurations'],
     'every supported shape, axis and operand aliasing',
     'tests use one shape and axis per operation and distinct operands',
     ['chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/ch.py'],
     [('index structure of the derivative matrices', 'chumpy/ch_ops.py sum, mean, cumsum, A_extremum, dot, Cross; chumpy/reordering.py Concatenate; chumpy/ch.py MatVecMult')],
     ['node.dr_wrt(x)'])
prop('C21', 'Library operations can be subclassed',
     "A class derived from any operation of the library, without overriding anything, behaves like that operation: it evaluates, differentiates and pickles alike. "
     "Inputs declared by a class in any of the documented ways are recognised for that class and for classes derived from it, whatever other classes exist.",
     ['programs'],
     'every class derived from a library class, every declaration style, any set of same-named classes',
     'tests derive only from the root class, with one declaration style',
     ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py'],
     [('super calls', 'chumpy/ch_ops.py NanDivide; chumpy/reordering.py transpose, rollaxis, Concatenate; chumpy/ch.py ChLambda'),
      ('declaration processing', 'chumpy/ch.py Ch.setup_terms, Ch.parm_declarations')],
     ['instances of derived classes'])
prop('C22', 'Removing redundancy changes nothing but the amount of work',
     "De-duplicating an expression merges two sub-expressions only if they are the same operation with the same options on the same inputs. "
     "Afterwards all values and derivatives are as before, and later changes of inputs reach every node as before.",
     ['programs', 'histories'],
     'every expression graph with repeated sub-expressions and every later history of changes',
     'one test merges one pair of sums and checks only object identity',
     ['chumpy/ch.py', 'chumpy/reordering.py'],
     [('semantic identity of a node', 'chumpy/ch.py Ch.sid'),
      ('replacement of duplicates', 'chumpy/ch.py Ch.remove_redundancy'),
      ('declared options cover what values depend on', 'terms/dterms of every class')],
     ['node.r before and after remove_redundancy()'])
prop('C23', 'Singular value decomposition and pseudo-inverse derivatives are exact',
     "The derivatives of singular vectors, singular values, pseudo-inverse and least-squares solution equal the true derivatives wherever those are defined.",
     ['inputs'], 'every matrix with distinct non-zero singular values',
     'numerical agreement on one matrix is all tests see',
     ['chumpy/linalg.py'], [('closed-form expressions', 'chumpy/linalg.py SvdD, SvdV, SvdU, Pinv, lstsq')], [])
prop('C24', 'Minimisation converges to a local minimum',
     "On a smooth least-squares objective, minimisation from any start point ends near a stationary point unless a limit stops it first.",
     ['inputs'], 'every smooth objective and start point',
     'four sample problems', ['chumpy/optimization.py', 'chumpy/optimization_internal.py'],
     [('dogleg step', 'chumpy/optimization_internal.py DoglegState.update_step')], [])

if __name__ == '__main__':
    with open(__file__.rsplit('/', 1)[0] + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
