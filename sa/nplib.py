"""What the analysis knows about numpy / scipy: signatures, defaults, ufuncs, view and mutation behaviour."""

import ast

_N = object()
REQ = _N


def _s(text):
    """'a, axis=None' -> [(name, default-or-REQ)]"""
    a = ast.parse('def f(%s): pass' % text).body[0].args
    ds = [REQ] * (len(a.args) - len(a.defaults)) + [ast.literal_eval(d) for d in a.defaults]
    return [(x.arg, d) for x, d in zip(a.args, ds)]


UNARY_UFUNCS = set('''exp log sin cos tan arcsin arccos arctan sqrt square absolute negative reciprocal floor ceil
 sign isnan isinf isfinite rint exp2 expm1 log2 log10 log1p sinh cosh tanh arcsinh arccosh arctanh conjugate
 positive logical_not cbrt trunc signbit spacing fabs degrees radians deg2rad rad2deg invert'''.split())
BINARY_UFUNCS = set('''add subtract multiply divide true_divide power maximum minimum greater greater_equal less less_equal
 equal not_equal logical_and logical_or logical_xor arctan2 hypot floor_divide mod remainder fmod fmax fmin bitwise_and
 bitwise_or bitwise_xor copysign float_power'''.split())
UFUNCS = UNARY_UFUNCS | BINARY_UFUNCS

SIG = {}
for _n in UNARY_UFUNCS:
    SIG[_n] = _s('x')
for _n in BINARY_UFUNCS:
    SIG[_n] = _s('x1, x2')

for _l in '''
sum: a, axis=None, dtype=None, out=None, keepdims=False
prod: a, axis=None, dtype=None, out=None, keepdims=False
mean: a, axis=None, dtype=None, out=None, keepdims=False
var: a, axis=None, dtype=None, out=None, ddof=0, keepdims=False
std: a, axis=None, dtype=None, out=None, ddof=0, keepdims=False
amax: a, axis=None, out=None, keepdims=False
amin: a, axis=None, out=None, keepdims=False
nanmax: a, axis=None, out=None, keepdims=False
nanmin: a, axis=None, out=None, keepdims=False
nansum: a, axis=None, dtype=None, out=None, keepdims=False
argmax: a, axis=None, out=None, keepdims=False
argmin: a, axis=None, out=None, keepdims=False
nanargmax: a, axis=None, out=None, keepdims=False
nanargmin: a, axis=None, out=None, keepdims=False
cumsum: a, axis=None, dtype=None, out=None
cumprod: a, axis=None, dtype=None, out=None
dot: a, b, out=None
matmul: a, b
inner: a, b
outer: a, b, out=None
kron: a, b
cross: a, b, axisa=-1, axisb=-1, axisc=-1, axis=None
tensordot: a, b, axes=2
clip: a, a_min, a_max, out=None
nan_to_num: x, copy=True, nan=0.0, posinf=None, neginf=None
reshape: a, newshape, order='C'
ravel: a, order='C'
transpose: a, axes=None
rollaxis: a, axis, start=0
moveaxis: a, source, destination
swapaxes: a, axis1, axis2
squeeze: a, axis=None
expand_dims: a, axis
tile: A, reps
repeat: a, repeats, axis=None
roll: a, shift, axis=None
rot90: m, k=1, axes=(0,1)
flip: m, axis=None
fliplr: m
flipud: m
diag: v, k=0
diagflat: v, k=0
sort: a, axis=-1, kind=None, order=None
argsort: a, axis=-1, kind=None, order=None
take: a, indices, axis=None, out=None, mode='raise'
take_along_axis: arr, indices, axis
concatenate: arrays, axis=0, out=None
vstack: tup
hstack: tup
dstack: tup
stack: arrays, axis=0
atleast_1d: a
atleast_2d: a
atleast_3d: a
arange: start, stop=None, step=None, dtype=None
zeros: shape, dtype=None, order='C'
ones: shape, dtype=None, order='C'
empty: shape, dtype=None, order='C'
full: shape, fill_value, dtype=None, order='C'
zeros_like: a, dtype=None, order='K', subok=True, shape=None
ones_like: a, dtype=None, order='K', subok=True, shape=None
empty_like: a, dtype=None, order='K', subok=True, shape=None
full_like: a, fill_value, dtype=None, order='K', subok=True, shape=None
eye: N, M=None, k=0, dtype=None, order='C'
identity: n, dtype=None
linspace: start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0
logspace: start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0
array: object, dtype=None, copy=True, order='K', subok=False, ndmin=0
asarray: a, dtype=None, order=None
ascontiguousarray: a, dtype=None
require: a, dtype=None, requirements=None
copy: a, order='K'
shape: a
size: a, axis=None
ndim: a
where: condition, x=None, y=None
nonzero: a
flatnonzero: a
argwhere: a
count_nonzero: a, axis=None
any: a, axis=None, out=None, keepdims=False
all: a, axis=None, out=None, keepdims=False
isneginf: x, out=None
isposinf: x, out=None
unique: ar, return_index=False
broadcast: a, b
broadcast_to: array, shape
broadcast_arrays: a, b
einsum: subscripts, a, b
array_equal: a1, a2
allclose: a, b, rtol=1e-05, atol=1e-08
isclose: a, b, rtol=1e-05, atol=1e-08
gradient: f, x, axis=None
interp: x, xp, fp
round: a, decimals=0, out=None
around: a, decimals=0, out=None
spacing: x
trace: a, offset=0, axis1=0, axis2=1
diagonal: a, offset=0, axis1=0, axis2=1
median: a, axis=None
ptp: a, axis=None
tri: N, M=None, k=0, dtype=None
tril: m, k=0
triu: m, k=0
meshgrid: x
outer: a, b
copyto: dst, src
put: a, ind, v
astype: a, dtype
view: a
item: a
linalg.inv: a
linalg.det: a
linalg.slogdet: a
linalg.norm: x, ord=None, axis=None, keepdims=False
linalg.svd: a, full_matrices=True, compute_uv=True
linalg.solve: a, b
linalg.lstsq: a, b, rcond='warn'
linalg.pinv: a
'''.strip().splitlines():
    _n, _t = _l.split(':', 1)
    SIG[_n.strip()] = _s(_t)

ALIAS = {'abs': 'absolute', 'max': 'amax', 'min': 'amin', 'float64': 'float64', 'round_': 'around', 'true_divide': 'divide',
         'asfarray': 'asarray', 'flatten': 'ravel', 'matmul': 'matmul', 'product': 'prod', 'alltrue': 'all', 'sometrue': 'any'}

SP_SIG = {}
for _l in '''
csc_matrix: arg1, shape=None, dtype=None, copy=False
csr_matrix: arg1, shape=None, dtype=None, copy=False
coo_matrix: arg1, shape=None, dtype=None, copy=False
lil_matrix: arg1, shape=None, dtype=None, copy=False
eye: m, n=None, k=0, dtype=None, format=None
identity: n, dtype=None, format=None
diags: diagonals, offsets=0, shape=None, format=None, dtype=None
spdiags: data, diags, m=None, n=None, format=None
kron: A, B, format=None
block_diag: mats, format=None, dtype=None
vstack: blocks, format=None, dtype=None
hstack: blocks, format=None, dtype=None
issparse: x
isspmatrix: x
'''.strip().splitlines():
    _n, _t = _l.split(':', 1)
    SP_SIG[_n.strip()] = _s(_t)

# numpy functions whose result may share memory with their (first) argument
VIEWS = set('''reshape ravel transpose rollaxis moveaxis swapaxes squeeze expand_dims asarray ascontiguousarray require
 atleast_1d atleast_2d atleast_3d view rot90 flip fliplr flipud diagonal broadcast_to diag'''.split())
# methods of ndarray that are functions of the same name
ARRAY_METHODS = set('''ravel reshape transpose dot copy sum prod mean var std max min argmax argmin cumsum cumprod swapaxes
 squeeze repeat astype view flatten nonzero any all round clip take diagonal trace item argsort ptp conj'''.split())
SPARSE_METHODS = set('''todense toarray tocsc tocsr tocoo matmat matvec multiply rmatvec tolil asformat'''.split())
ARRAY_MUTATORS = set('''fill sort resize put partition itemset eliminate_zeros setdiag setflags sum_duplicates sort_indices
 byteswap setfield'''.split())
CONTAINER_MUTATORS = set('''append add update pop remove clear extend insert setdefault discard popitem reverse
 intersection_update difference_update symmetric_difference_update appendleft popleft move_to_end'''.split())
NP_MUTATING_FUNCS = {'copyto': 'dst', 'put': 'a', 'place': 'arr', 'putmask': 'a', 'fill_diagonal': 'a', 'put_along_axis': 'arr'}
NONCALLABLE = {'mgrid', 'ogrid', 'r_', 'c_', 's_', 'index_exp', 'pi', 'e', 'inf', 'nan', 'newaxis'}
METHOD_SIG = {'reshape': None, 'transpose': None,
              'clip': _s('a, a_min, a_max'), 'max': _s('a, axis=None'), 'min': _s('a, axis=None')}
