"""C09: operators and numpy-named functions compute numpy's values."""
import ast
import os
from ..core import *
from ..arr import *
from ..arrval import GENERIC, Opaque, boole
from ..jac import N, ONE_, THREE, UNARY, BINARY, Ev2, sym, feasible, value_of, oc_attrs, inst_inputs, with_equal, special_shapes
from ..nplib import SIG, REQ
from ..terms import Term
from ..track import norm, A as At, flat

EXPLAIN = ('For every operator the library overloads and every function it offers under a numpy name, a call is written once and evaluated twice on its source: as the library resolves it (to a node, '
           'through wrappers, constructors and set-up code) and as numpy defines it.  The value the node computes (its compute_r, over all paths) is evaluated for operands of symbolic shape '
           'and compared element by element, as a closed form, with what numpy gives for the same arguments, options and defaults.')

SQ = [([N[0], N[0]],), ([N[1], N[0], N[0]],)]
U1 = [(s,) for s in UNARY]
U2 = [(s,) for s in UNARY if len(s) >= 2]
U3 = [(s,) for s in UNARY if len(s) >= 3]
DOT = [([N[0], N[1]], [N[1], N[2]]), ([N[0]], [N[0]]), ([N[0], N[1]], [N[1]]), ([N[0]], [N[0], N[1]]), ([N[0], N[1], N[2]], [N[2], N[3]]),
       ([N[0], N[1]], [N[2], N[1], N[3]]), ([ONE_, N[0]], [N[0], ONE_]), ([N[0]], [N[1], N[0], N[2]])]
SAME = [([N[0]], [N[0]]), ([N[0], N[1]], [N[0], N[1]]), ([N[0], ONE_], [N[0], ONE_]), ([N[0], N[1], N[2]], [N[0], N[1], N[2]]), ([ONE_], [ONE_])]
ROWS = [([N[0]], [N[1]]), ([N[0], N[1]], [N[2], N[1]]), ([N[0], N[1]], [N[0], N[2]]), ([N[0], N[1], N[2]], [N[3], N[1], N[2]])] + SAME
SING = [([N[0], ONE_],), ([ONE_, N[0]],), ([N[0], N[1]],), ([N[0], ONE_, N[1]],), ([ONE_],), ([N[0]],)]
NONE_ = [()]

FORMS = []


def form(key, shapes, *exprs):
    for e in exprs:
        FORMS.append((key, e if isinstance(e, tuple) else (e, e), shapes))


for _n in ('exp log sin cos tan arcsin arccos arctan sqrt square absolute abs negative reciprocal floor ceil sign nan_to_num isnan isinf isfinite isneginf isposinf logical_not').split():
    form(_n, U1, 'F.%s(a)' % _n)
for _n in ('add subtract multiply divide power maximum minimum greater greater_equal less less_equal equal not_equal').split():
    form(_n, BINARY, 'F.%s(a, b)' % _n)
    form(_n, U1, 'F.%s(a, 3)' % _n, 'F.%s(3, a)' % _n)
for _o in '+ - * / ** > >= < <= !='.split():
    form('operator ' + _o, BINARY, 'a %s b' % _o)
    form('operator ' + _o, U1, 'a %s 3' % _o, '3 %s a' % _o, 'a %s 0' % _o if _o not in '/ **' else 'a %s 1' % _o)
for _m, _o in zip('add sub mul truediv pow'.split(), '+ - * / **'.split()):
    form('reflected ' + _m, BINARY, ('a.__r%s__(b)' % _m, 'b %s a' % _o), ('a.__%s__(b)' % _m, 'a %s b' % _o))
    form('reflected ' + _m, U1, ('a.__r%s__(2)' % _m, '2 %s a' % _o))
form('reflected div', BINARY, ('a.__rdiv__(b)', 'b / a'), ('a.__div__(b)', 'a / b'))
for _m, _o in zip('gt ge lt le ne'.split(), '> >= < <= !='.split()):
    form('method ' + _m, BINARY, ('a.__%s__(b)' % _m, 'a %s b' % _o))
form('operator -a', U1, '-a', '+a', 'abs(a)', 'a ** 2', 'a ** -1', 'a ** 0.5', 'a ** 1', 'a ** 0')
for _n in 'sum mean amax amin max min nanmax nanmin'.split():
    form(_n, U1, 'F.%s(a)' % _n, 'F.%s(a, axis=None)' % _n)
    form(_n, U1, *['F.%s(a, axis=%d)' % (_n, k) for k in (0, 1, 2, -1, -2, -3)])
    form(_n, U1, *['F.%s(a, %d)' % (_n, k) for k in (0, 1, -1)])
for _n in 'var std'.split():
    form(_n, U1, 'F.%s(a)' % _n, *['F.%s(a, axis=%d)' % (_n, k) for k in (0, 1, -1)])
for _n in 'argmax argmin nanargmax nanargmin'.split():
    form(_n, U1, 'F.%s(a)' % _n, *['F.%s(a, axis=%d)' % (_n, k) for k in (0, 1, -1)])
    form(_n, U1, 'F.%s(a, 1)' % _n)
for _n in 'all any'.split():
    form(_n, U1, 'F.%s(a > 0)' % _n, *['F.%s(a > 0, axis=%d)' % (_n, k) for k in (0, -1)])
for _n in 'sum mean min max'.split():
    form('method ' + _n, U1, 'a.%s()' % _n, *['a.%s(axis=%d)' % (_n, k) for k in (0, 1, -1)])
    form('method ' + _n, U1, 'a.%s(0)' % _n, 'a.%s(-1)' % _n)
form('cumsum', U1, 'F.cumsum(a)', 'F.cumsum(a, axis=0)', 'F.cumsum(a, 1)', 'F.cumsum(a, axis=-1)', 'F.cumsum(a, -2)', 'a.cumsum()', 'a.cumsum(axis=0)', 'a.cumsum(-1)')
form('clip', U1, 'F.clip(a, 2, 5)', 'F.clip(a, a_min=2, a_max=5)', 'F.clip(a, -1, 1)', 'F.clip(a_max=5, a_min=2, a=a)')
form('sort', U1, 'F.sort(a)', 'F.sort(a, axis=0)', 'F.sort(a, 0)', 'F.sort(a, axis=1)', 'F.sort(a, axis=-1)', 'F.sort(a, axis=None)', 'F.sort(a, -2)')
form('dot', DOT, 'F.dot(a, b)', 'a.dot(b)', 'F.dot(b=b, a=a)')
form('dot', DOT, 'F.dot(b.T, a.T)')
form('cross', [([N[0], THREE], [N[0], THREE]), ([THREE], [THREE])], 'F.cross(a, b)', 'F.cross(b, a)')
form('tensordot', [([N[0], N[1]], [N[1], N[2]]), ([N[0]], [N[0]]), ([N[0], N[1], N[2]], [N[2], N[3]]), ([N[0], N[1]], [N[1]])],
     'F.tensordot(a, b, 1)', 'F.tensordot(a, b, axes=1)', 'F.tensordot(a, b, axes=([-1], [0]))')
form('tensordot', [([N[0], N[1]], [N[0], N[1]]), ([N[2], N[0], N[1]], [N[0], N[1]]), ([N[2], N[0], N[1]], [N[0], N[1], N[3]])],
     'F.tensordot(a, b)', 'F.tensordot(a, b, 2)')
form('tensordot', [([N[0], N[1]], [N[1], N[0]])], 'F.tensordot(a, b, axes=([0, 1], [1, 0]))')
form('tensordot', [([N[0], N[1]], [N[0], N[2]]), ([N[0], N[1], N[3]], [N[0], N[2]])], 'F.tensordot(a, b, axes=(0, 0))', 'F.tensordot(a, b, axes=([0], [0]))')
form('tensordot', [([N[0], N[1]], [N[2], N[1]])], 'F.tensordot(a, b, axes=(1, 1))', 'F.tensordot(a, b, axes=(-1, -1))')
# reordering
form('transpose', U1, 'F.transpose(a)', 'a.T', 'a.transpose()')
form('transpose', U2, 'F.transpose(a, (1, 0))', 'F.transpose(a, axes=(1, 0))', 'a.transpose(1, 0)', 'a.transpose((1, 0))')
form('transpose', U3, 'F.transpose(a, (1, 2, 0))', 'F.transpose(a, (2, 0, 1))', 'a.transpose(1, 2, 0)', 'a.transpose((1, 0, 2))', 'a.transpose([2, 1, 0])')
form('rollaxis', U1, *['F.rollaxis(a, %d)' % k for k in (0, 1, 2, -1)])
form('rollaxis', U2, *['F.rollaxis(a, %d, %d)' % (k, s) for k in (0, 1, 2, -1) for s in (0, 1, 2, -1)])
form('rollaxis', U2, 'F.rollaxis(a, axis=0, start=2)', 'F.rollaxis(a, start=1, axis=2)')
form('swapaxes', U2, 'F.swapaxes(a, 0, 1)', 'F.swapaxes(a, -1, 0)', 'F.swapaxes(a, 0, 2)', 'F.swapaxes(a, axis1=1, axis2=0)', 'F.swapaxes(a, 1, 1)')
form('roll', U1, 'F.roll(a, 1)', 'F.roll(a, -2)', 'F.roll(a, 1, 0)', 'F.roll(a, 1, axis=1)', 'F.roll(a, shift=2, axis=-1)', 'F.roll(a, -1, axis=0)')
form('tile', U1, 'F.tile(a, 2)', 'F.tile(a, (2, 3))', 'F.tile(a, (2,))', 'F.tile(a, reps=(2, 1, 3))', 'F.tile(A=a, reps=2)')
form('repeat', U1, 'F.repeat(a, 2)', 'F.repeat(a, 3, 0)', 'F.repeat(a, 2, axis=1)', 'F.repeat(a, repeats=2, axis=-1)')
form('squeeze', SING, 'F.squeeze(a)', 'F.squeeze(a, 1)', 'F.squeeze(a, axis=0)', 'a.squeeze()', 'F.squeeze(a, -1)', 'a.squeeze(1)', 'a.squeeze(axis=0)')
form('expand_dims', U1, 'F.expand_dims(a, 0)', 'F.expand_dims(a, 1)', 'F.expand_dims(a, axis=-1)', 'F.expand_dims(a, 2)')
form('reshape', [([N[0], N[1]],), ([N[0], N[1], N[2]],), ([N[0]],)], 'F.reshape(a, -1)', 'F.reshape(a, (-1,))', 'F.reshape(a, (1, -1))', 'F.reshape(a, (-1, 1))', 'a.reshape(-1)',
     'a.reshape(-1, 1)', 'a.reshape((1, -1))', 'a.reshape(1, -1, 1)', 'F.reshape(a, (a.size, 1))', 'F.reshape(a, (a.shape[-1], -1))', 'F.reshape(F.reshape(a, (-1, 1)), (1, -1))')
form('ravel', U1, 'F.ravel(a)', 'a.ravel()')
for _n in 'atleast_1d atleast_2d atleast_3d'.split():
    form(_n, U1, 'F.%s(a)' % _n)
    form(_n, SAME, ('F.%s(a, b)[0]' % _n, 'F.%s(a)' % _n), ('F.%s(a, b)[1]' % _n, 'F.%s(b)' % _n))
for _n in 'fliplr flipud rot90'.split():
    form(_n, U1, 'F.%s(a)' % _n)
form('rot90', U2, *['F.rot90(a, %d)' % k for k in (0, 1, 2, 3, 4, -1, 5)])
form('rot90', U2, 'F.rot90(a, k=2)')
form('diag', [([N[0]],), ([padd(N[0], pc(2)), padd(N[0], pc(4))],), ([padd(N[0], pc(4)), padd(N[0], pc(2))],), ([padd(N[0], pc(2)), padd(N[0], pc(2))],)],
     'F.diag(a)', 'F.diag(a, 1)', 'F.diag(a, k=-1)', 'F.diag(v=a, k=2)')
form('diagflat', [([N[0]],), ([N[0], N[1]],)], 'F.diagflat(a)', 'F.diagflat(a, 1)', 'F.diagflat(a, k=-2)', 'F.diagflat(v=a)')
form('indexing', U1, 'a[0]', 'a[-1]', 'a[:]', 'a[::-1]', 'a[None]', 'a[..., 0]', 'a[0:1]')
form('indexing', U2, 'a[:, 0]', 'a[0, 0]', 'a[:, ::-1]', 'a[:, None]', 'a[-1, :]', 'a[..., None]')
# stacking
for _n in 'vstack hstack dstack'.split():
    form(_n, ROWS, 'F.%s((a, b))' % _n, 'F.%s((b, a))' % _n, 'F.%s([a, b, a])' % _n)
form('concatenate', ROWS, 'F.concatenate((a, b))', 'F.concatenate((b, a), 0)', 'F.concatenate((a, b), axis=1)', 'F.concatenate((a, b, a), axis=-1)', 'F.concatenate([a, b], 1)', 'F.concatenate((b, a), axis=0)')
# linear algebra
form('linalg.inv', SQ[:1], 'F.linalg.inv(a)')
form('linalg.det', SQ[:1], 'F.linalg.det(a)')
form('linalg.slogdet', SQ[:1], 'F.linalg.slogdet(a)[0]', 'F.linalg.slogdet(a)[1]')
form('linalg.norm', U1, 'F.linalg.norm(a)')
form('linalg.norm', U1, 'F.linalg.norm(a, None)', 'F.linalg.norm(a, ord=None, axis=None)', 'F.linalg.norm(a - 1)')
# arrays from scratch
form('zeros', NONE_, 'F.zeros(3)', 'F.zeros((2, 3))')
form('ones', NONE_, 'F.ones(3)', 'F.ones((2, 3))')
form('empty', NONE_, 'F.empty((2, 3))', 'F.empty(3)')
form('eye', NONE_, 'F.eye(3)', 'F.eye(3, 4)', 'F.eye(3, k=1)', 'F.eye(3, 4, -1)')
form('identity', NONE_, 'F.identity(3)')
form('tri', NONE_, 'F.tri(3)', 'F.tri(3, 4, 1)')
form('arange', NONE_, 'F.arange(4)', 'F.arange(1, 5)')
form('linspace', NONE_, 'F.linspace(0, 1, 5)', 'F.linspace(0, 1, num=3)')
form('logspace', NONE_, 'F.logspace(0, 1, 5)')
form('array', NONE_, 'F.array([1., 2., 3.])', 'F.array([[1., 2.], [3., 4.]])')
form('zeros_like', U1, 'F.zeros_like(a)', 'F.ones_like(a)', 'F.empty_like(a)')
for _n in 'require'.split():
    form('refused', U1[:1], 'F.%s(a)' % _n)
form('refused', SAME[:1], 'F.meshgrid(a, b)')
form('shape', U1, 'F.shape(a)', 'a.shape', 'a.size', 'a.ndim')
form('array', U1, 'F.array(a)', 'F.asarray(a)', 'F.ascontiguousarray(a)', 'F.asfarray(a)')
form('nonzero', [([N[0]],)], 'F.nonzero(a)[0]', 'F.flatnonzero(a)', 'F.argwhere(a)')
# compositions: wrappers inside wrappers
form('composition', SAME, '(a - b) * 2 + a', 'F.sum((a - b) ** 2)', 'F.sum(F.exp(a) / b, axis=0)', 'F.maximum(a, b) - F.minimum(a, b)', '1 / (1 + F.exp(-a))', '-(a * b).sum()')

form('composition', U1, 'a <= a', 'a < a', 'a >= a', 'a > a', 'a != a', 'F.equal(a, a)', 'F.greater(a, a)', 'F.less_equal(a, a)', 'F.not_equal(a, a)', 'F.sign(a - a)', 'F.maximum(a, a)', 'a + a', 'a - a', 'a * a', 'a / a', 'a ** a',
     'F.absolute(-a)', 'F.sqrt(F.square(a))', 'F.exp(F.log(a))', 'F.floor(a * 10)', 'F.ceil(a * 10)', 'F.floor(-a)', 'F.ceil(-a)', 'F.sign(-a)', 'F.clip(-a, -2, 0)')
form('composition', SAME, 'F.vstack((F.hstack((a, a)), F.hstack((b, b))))', 'F.concatenate((F.concatenate((a, b)), a))', 'F.concatenate((a, F.concatenate((b, a))))', 'F.hstack((F.hstack((a, b)), a))',
     'F.vstack((a, F.vstack((b, a))))', 'F.dstack((F.dstack((a, b)), a))', 'F.concatenate((F.concatenate((a, b), axis=1), F.concatenate((b, a), axis=1)), axis=0)',
     'F.concatenate((F.concatenate((a, b), axis=0), F.concatenate((b, a), axis=0)), axis=1)', '(a > b) + (a < b)', 'F.dot(a, b.T)')
form('composition', U3, 'F.transpose(F.transpose(a, (1, 2, 0)), (1, 2, 0))', 'F.transpose(a, (-1, 0, 1))', 'F.rollaxis(F.rollaxis(a, 2), 2)', 'F.swapaxes(F.swapaxes(a, 0, 1), 1, 2)', 'F.reshape(a.T, (-1, 1))', 'F.sum(F.sum(a, axis=0), axis=0)',
     'F.mean(F.mean(a, axis=-1), axis=-1)', 'F.reshape(a[0], -1)', 'a[0][:, 0]', 'a[:, 0][0]', 'a[..., 0].T', 'F.amax(a, axis=0) - F.amin(a, axis=0)', 'a.T.ravel()', 'F.ravel(F.rollaxis(a, 1))')
form('composition', U2, 'a.T.T', 'F.reshape(a.T, -1)', 'a.T[0]', 'a[::-1].T', 'F.fliplr(F.flipud(a))', 'F.rot90(F.rot90(a))', 'F.tile(a.T, 2)', 'F.repeat(a.T, 2, axis=0)', 'F.cumsum(a.T, axis=0)', 'F.cumsum(a, axis=0)', 'F.sort(a.T, axis=0)', 'F.roll(a.T, 1, axis=0)',
     'F.roll(a, (1, 2), (0, 1))', 'F.roll(a, (1,), (0,))', 'F.transpose(a, [1, 0])', 'F.tile(a, [2, 1])', 'F.expand_dims(a.T, 1)', 'F.squeeze(F.expand_dims(a, 1), 1)', 'F.rot90(a, -2)', 'F.rot90(a, 7)', 'F.sum(a.T, axis=0)', 'F.nanmax(a.T, axis=0)', 'F.argmax(a.T, axis=0)')
form('cross', [([THREE, N[0]], [THREE, N[0]]), ([THREE, THREE], [THREE, THREE])], 'F.cross(a, b, axis=0)', 'F.cross(a, b, axisa=0, axisb=0)', 'F.cross(a, b, 0, 0)', 'F.cross(a, b, 0, 0, 0)')
form('cross', [([N[0], THREE], [THREE, N[0]]), ([THREE, THREE], [THREE, THREE])], 'F.cross(a, b, axisb=0)', 'F.cross(a, b, -1, 0)', 'F.cross(b, a, axisa=0, axisb=-1, axisc=0)', 'F.cross(a, b, axisb=0, axisc=0)')
form('arange', NONE_, 'F.arange(0, 10, 2)', 'F.eye(4, k=-1)', 'F.linspace(0, 1, 5, endpoint=False)', 'F.logspace(0, 2, 3, base=2.)', 'F.tri(4, k=-1)', 'F.ones((2, 1, 3))', 'F.identity(4)', 'F.zeros(())', 'F.array(3.)', 'F.array([1, 2, 3])')

RANDOM = ['rand(3)', 'randn(2, 3)', 'normal(1., 2., 3)', 'normal(loc=1., size=4)', 'uniform(0., 2., size=(2, 3))', 'beta(1., 2., 3)', 'gamma(2., 1., 3)', 'exponential(2., 3)', 'poisson(3., 4)',
          'binomial(3, .5, 4)', 'laplace(0., 1., 2)', 'logistic(0., 1., 2)', 'lognormal(0., 1., 2)', 'randint(0, 5, 3)', 'random_sample(3)', 'random(3)', 'chisquare(2., 3)', 'gumbel(0., 1., 2)',
          'rayleigh(1., 2)', 'weibull(1., 2)', 'triangular(0., 1., 2., 3)', 'vonmises(0., 1., 2)', 'standard_normal(3)', 'standard_t(2., 3)', 'pareto(2., 3)', 'power(2., 3)', 'wald(1., 2., 3)', 'zipf(2., 3)',
          'geometric(.5, 3)', 'negative_binomial(3, .5, 2)', 'dirichlet([1., 2.], 3)', 'multinomial(3, [.5, .5], 2)', 'multivariate_normal([0., 0.], [[1., 0.], [0., 1.]], 2)', 'standard_gamma(2., 3)',
          'standard_cauchy(3)', 'standard_exponential(3)', 'noncentral_chisquare(2., 1., 3)', 'noncentral_f(2., 3., 1., 2)', 'f(2., 3., 4)', 'hypergeometric(3, 4, 5, 2)', 'logseries(.5, 3)']
form('random', NONE_, *['F.random.' + x for x in RANDOM])


MOMENT = {'var': 'np.mean(a ** 2', 'std': 'np.sqrt(np.mean(a ** 2'}      # what the library computes under these names (known)


def source():
    out = ['import chumpy as top', 'import numpy as np']
    for i, (key, e, _) in enumerate(FORMS):
        out.append('def c_%d(a, b): return %s' % (i, e[0].replace('F.', 'top.')))
        out.append('def e_%d(a, b): return %s' % (i, e[1].replace('F.', 'np.')))
        if key in MOMENT:
            out.append('def m_%d(a, b): return %s%s' % (i, e[1].replace('F.%s(a' % key, MOMENT[key]), ')' if key == 'std' else ''))
    return '\n'.join(out) + '\n'


def made(ctx, p, t):
    """{attribute: term} of a node built on the path."""
    out = {}
    for k, v in t.a[1]:
        out[k] = v
    for (o, k), v in p.st.attrs.items():
        if o is t and isinstance(k, str):
            out[k] = v
    ctx.I.st = p.st
    return {k: norm(ctx.I.freeze(v)) for k, v in out.items() if isinstance(v, Term)}


def names_in(t):
    if t.op in ('tup', 'list') and all(is_c(x) and isinstance(cv(x), str) for x in t.a):
        return tuple(cv(x) for x in t.a)
    if is_c(t) and isinstance(cv(t), str):
        return (cv(t),)
    return None


class Ev9(Ev2):
    """Adds functions only needed here."""
    def npcall(self, name, b, t):
        if name in ('any', 'all'):
            g = lambda k, d=None: (self.ev(b[k]) if k in b else d)
            A = self.num(self.ev(list(b.values())[0]))
            if 'keepdims' in b and g('keepdims') is not False:
                raise Und('keepdims')
            A = Arr(A.axes, boole(A.elem))
            if A.elem in (ZERO, ONE):
                return Ev2.npcall(self, name, b, t)
            return extremum(A, getaxis(g('axis'), A.ndim), 'max' if name == 'any' else 'min', False)
        if name == 'linalg.norm':
            g = lambda k, d=None: (self.ev(b[k]) if k in b else d)
            A = self.num(g('x'))
            if g('ord') is not None and not (g('axis') is not None and to_int(g('ord')) == 2) or 'keepdims' in b:
                raise Und('norm')
            k = getaxis(g('axis'), A.ndim)
            A = self.map(lambda e: power(e, num(2)), A)
            return self.map(lambda e: fn('sqrt', e), asum(A, k))
        if name == 'tensordot':
            A, B = freshen(self.num(self.ev(b['a']))), freshen(self.num(self.ev(b['b'])))
            ax = self.ev(b['axes']) if 'axes' in b else scp(pc(2))
            if isinstance(ax, (tuple, list)):
                if len(ax) != 2:
                    raise Und('axes')
                la, lb = [[to_int(y) for y in (x if isinstance(x, (tuple, list)) else [x])] for x in ax]
            else:
                n = to_int(ax)
                la, lb = list(range(A.ndim - n, A.ndim)), list(range(n))
                if n > min(A.ndim, B.ndim):
                    raise Refused('axes')
            if len(la) != len(lb) or any(not -A.ndim <= x < A.ndim for x in la) or any(not -B.ndim <= x < B.ndim for x in lb):
                raise Refused('axes')
            la, lb = [x % A.ndim for x in la], [x % B.ndim for x in lb]
            if any(fsize(A.axes[x]) != fsize(B.axes[y]) for x, y in zip(la, lb)):
                raise Refused('sizes')
            fa, fb = [i for i in range(A.ndim) if i not in la], [i for i in range(B.ndim) if i not in lb]
            shp = [fsize(A.axes[i]) for i in fa] + [fsize(B.axes[i]) for i in fb]
            x, y = perm(A, fa + la), perm(B, lb + fb)
            n = pmul(*[fsize(A.axes[i]) for i in la]) if la else P1
            x = reshape(x, [pmul(*[fsize(A.axes[i]) for i in fa]) if fa else P1, n])
            y = reshape(y, [n, pmul(*[fsize(B.axes[i]) for i in fb]) if fb else P1])
            R = dot(x, y)
            return reshape(R, shp)
        if name in ('flip', 'fliplr', 'flipud'):
            try:
                return Ev2.npcall(self, name, b, t)
            except IndexError:
                raise Refused(name)
        return Ev2.npcall(self, name, b, t)


class Value(object):
    """Values of terms that contain nodes built by library calls."""
    def __init__(self, ctx, p, env):
        self.ctx, self.p, self.env = ctx, p, env
        self.seen = {}

    def ev(self, t):
        for y in subterms(t):
            if y.op == 'new' and y not in self.seen and y is not t:
                self.node_into_env(y)
        if t.op == 'new':
            return self.node(t)
        return Ev9(self.env).ev(t)

    def node_into_env(self, y):
        self.seen[y] = True
        try:
            v = self.node(y)
        except (Und, Refused) as e:
            v = e
        self.env[T('val', y)] = v
        self.env.setdefault(y, v)
        self.env.setdefault(T('attr', y, 'r'), v)

    def side(self, y, key, env):
        """Attributes the value computation of an input leaves on it."""
        ctx = self.ctx
        if y.a[0] not in ctx.I.chclasses:
            return
        names = set(e.a[1] for p in list(ctx.r_paths(y.a[0]) or ()) + list((ctx.oc_paths(y.a[0]) if ctx.own(y.a[0], 'on_changed') else ()) or ()) for e in flat(p.eff) if e.kind == 'setattr' and e.a[0] is ctx.inst(y.a[0]) and isinstance(e.a[1], str))
        at = made(ctx, self.p, y)
        s = ctx.inst(y.a[0])
        for n in names - set(at):
            t = kept(ctx, y.a[0], n, at)
            if t is None:
                continue
            e2 = {}
            for k, v in at.items():
                try:
                    x = self.ev(v)
                except (Und, Refused) as x:
                    continue
                e2[T('val', T('attr', s, k))] = e2[T('attr', s, k)] = x
            try:
                env[T('attr', key, n)] = Ev9(e2).ev(norm(t))
            except (Und, Refused):
                pass

    def node(self, t):
        """The value of a node, as an array of at least one dimension."""
        ctx = self.ctx
        cls = t.a[0]
        if cls.op != 'cls' or cls not in ctx.I.chclasses and cls is not ctx.I.ch:
            raise Und('an object of another class')
        at = made(ctx, self.p, t)
        if cls is ctx.I.ch:
            if 'x' not in at:
                raise Und('a variable without content')
            v = Ev9(self.env).num(self.ev(at['x']))
            return v if v.ndim else Arr(((),), v.elem)
        s = ctx.inst(cls)
        ins = ctx.I.dterms(cls)
        dyn = ()
        if 'dterms' in at and not ins:
            dyn = names_in(at['dterms'])
            if dyn is None:
                raise Und('inputs')
        env = {}
        for k, v in at.items():
            try:
                x = self.ev(v)
            except (Und, Refused) as e:
                x = e
            if k in ins or k in dyn:
                if not isinstance(x, Exception):
                    x = Ev9(self.env).num(x)
                    if x.ndim == 0:
                        x = Arr(((),), x.elem)
                env[T('val', T('attr', s, k))] = x
                env[T('attr', T('attr', s, k), 'r')] = x
                env.setdefault(T('attr', s, k), x)
            else:
                env[T('attr', s, k)] = x
            for q in (k, C(k)):
                env[T('hasattr', s, q)] = True
            if v.op == 'new':
                self.side(v, T('attr', s, k), env)
        for k in list(ins) + [x for x in ctx.I.terms(cls) if isinstance(x, str)]:
            if k not in at:
                for q in (k, C(k)):
                    env[T('hasattr', s, q)] = False
        vals = node_value(ctx, cls, env, dyn, {k: v for k, v in at.items() if constant(v) and k not in ins and k not in dyn})
        if len(vals) != 1:
            first = vals[0][0]
            for v, c, u in vals[1:]:
                ok, why = compare_arrays(v, first)
                if not ok:
                    raise Und('several values')
        return vals[0][0]


def kept(ctx, cls, name, at):
    """What the value computation of the class keeps under a name (one form on every path), over its own attributes."""
    out = set()
    hook = ctx.own(cls, 'on_changed') is not None
    for p in (ctx.oc_paths(cls) if hook else ctx.r_paths(cls)) or ():
        if p.outcome == 'raise':
            continue
        vs = [e.a[2] for e in flat(p.eff) if e.kind == 'setattr' and e.a[0] is ctx.inst(cls) and e.a[1] == name]
        if not vs:
            return None
        out.add(vs[-1])
    return list(out)[0] if len(out) == 1 else None


def node_value(ctx, cls, env, dyn, consts):
    s = ctx.inst(cls)
    try:
        return paths_value(ctx, cls, env, ctx.r_paths(cls, tuple(dyn)))
    except Und:
        if not consts:
            raise
    key = ('r09', cls, tuple(dyn), tuple(sorted(consts.items(), key=lambda x: x[0])))
    if key not in ctx._runs:
        attrs = dict(ctx.iattrs(cls, tuple(dyn)) or {})
        attrs.update({(s, k): v for k, v in consts.items()})
        ctx._runs[key] = ctx.run(ctx.method(cls, 'compute_r'), [s], selfterm=s, attrs=attrs)
    return paths_value(ctx, cls, env, ctx._runs[key])


def constant(t):
    return is_c(t) or t.op in ('tup', 'list') and all(isinstance(x, Term) and constant(x) for x in t.a) or \
        t.op == 'dict' and all(constant(x) for pr in t.a for x in (pr if isinstance(pr, tuple) else pr.a))


def paths_value(ctx, cls, env, ps):
    if ps is None:
        raise Und('compute_r: ' + getattr(ctx, 'note', ''))
    for k, v in oc_attrs(ctx, cls, env).items():
        try:
            env[k] = Ev9(env).ev(v)
        except (Und, Refused):
            pass
    out = []
    refused = None
    for p in ps:
        ev = Ev9(env)
        ok, conds, unk = feasible(ev, p)
        if not ok:
            continue
        if p.outcome == 'raise':
            refused = 'value'
            continue
        if p.value is NONE:
            raise Und('no value')
        try:
            v = Value(ctx, p, env).ev(norm(p.value)) if any(y.op == 'new' for y in subterms(p.value)) else ev.ev(p.value)
        except Refused:
            refused = 'value'
            continue
        if isinstance(v, Sp):
            raise Und('sparse value')
        v = ev.num(v)
        if v.ndim == 0:
            v = Arr(((),), v.elem)
        if conds:
            raise Und('depends on data')
        out.append((v, conds, unk))
    if not out and refused:
        raise Refused(refused)
    if not out:
        raise Und('no path gives a value')
    return out


def at_least_1d(v):
    if isinstance(v, Arr) and v.ndim == 0:
        return Arr(((),), v.elem)
    return v


def plain(ctx, p, t, depth=0):
    """The computation as a term over numpy: nodes replaced by what their compute_r returns."""
    if not isinstance(t, Term) or depth > 6:
        return t
    if t.op == 'new' and t.a[0] in [ctx.I.ch] + list(ctx.I.chclasses):
        at = made(ctx, p, t)
        if t.a[0] is ctx.I.ch:
            return plain(ctx, p, at.get('x', t), depth + 1)
        ps = ctx.r_paths(t.a[0])
        live = [q for q in ps or () if q.outcome == 'return']
        if len(live) != 1:
            return t
        s = ctx.inst(t.a[0])

        def sub(y):
            if not isinstance(y, Term):
                return tuple(sub(z) for z in y) if isinstance(y, tuple) else y
            if y.op == 'val' and y.a[0].op == 'attr' and y.a[0].a[0] is s and y.a[0].a[1] in at:
                return plain(ctx, p, at[y.a[0].a[1]], depth + 1)
            if y.op == 'attr' and y.a[0] is s and y.a[1] in at:
                return plain(ctx, p, at[y.a[1]], depth + 1)
            return T(y.op, *[sub(z) for z in y.a])
        return sub(norm(live[0].value))
    return T(t.op, *[plain(ctx, p, y, depth + 1) if isinstance(y, Term) else tuple(plain_pair(ctx, p, z, depth) for z in y) if isinstance(y, tuple) else y for y in t.a])


def plain_pair(ctx, p, z, depth):
    if isinstance(z, tuple):
        return tuple(plain_pair(ctx, p, w, depth) for w in z)
    return plain(ctx, p, z, depth + 1) if isinstance(z, Term) else z


def clean(t):
    """Without the numbers that tell calls apart."""
    if isinstance(t, tuple):
        return tuple(clean(x) for x in t)
    if not isinstance(t, Term):
        return t
    if t.op == 'np' and t.a[0] in SIG:
        sig = dict(SIG[t.a[0]])
        return ('np', t.a[0], tuple((k, clean(v)) for k, v in t.a[1] if not (is_c(v) and k in sig and sig[k] is not REQ and sig[k] == cv(v))))
    if t.op in ('ecall', 'call', 'vcall'):
        return (t.op,) + tuple(clean(x) for x in t.a if not isinstance(x, int))
    if t.op == 'val' and t.a[0].op == 'inst':
        return clean(t.a[0])
    return (t.op,) + tuple(clean(x) for x in t.a)


def shapes_text(shp):
    return ', '.join('%s of shape (%s)' % (n, ','.join(pshow(x) for x in q)) for n, q in zip('ab', shp))


def evaluate(ctx, ps, env, node):
    """(value, path) pairs of the feasible paths; a Refused entry when the call is refused."""
    out = []
    for p in ps:
        e = dict(env)
        V = Value(ctx, p, e)
        for f, v in p.facts:
            if isinstance(f, Term):
                for y in subterms(norm(f)):
                    if y.op == 'new' and y not in V.seen:
                        V.node_into_env(y)
        ok, conds, unk = feasible(Ev9(e), p)
        if not ok:
            continue
        if p.outcome == 'raise':
            out.append((Refused('raises'), conds, unk, p))
            continue
        try:
            v = V.ev(norm(p.value))
            if isinstance(v, (tuple, list)) and all(not isinstance(x, (tuple, list)) for x in v):
                v = Ev9(e).num(v)
            elif not isinstance(v, Arr):
                v = Ev9(e).num(v)
        except (Und, Refused) as x:
            v = x
        out.append((v, conds, unk, p))
    return out


def check(ctx, rep):
    c = Ctx(ctx.repo, probe=source())
    I = c.I
    a, b = T('inst', I.ch, 'first', 'open'), T('inst', I.ch, 'second', 'open')
    fns = {i.qual.rsplit('.', 1)[-1]: f for q, f, i in c.module_functions() if i.mod.endswith('_probe')}
    dbg = os.environ.get('C09_ONLY')
    covered = {}
    for i, (key, e, shapes) in enumerate(FORMS):
        if dbg and key not in dbg.split(','):
            continue
        one_form(c, rep, fns, i, key, e, shapes, a, b, dbg)
    offered(c, rep)
    defaults(c, rep)


def one_form(c, rep, fns, i, key, e, shapes, a, b, dbg):
    I = c.I
    text = e[0].replace('F.', '')
    fc, fe = fns.get('c_%d' % i), fns.get('e_%d' % i)
    if fc is None or fe is None:
        rep.und('value', text, None, 'not analysed')
        return
    va, vb = T('val', a), T('val', b)
    eps = c.run(fe, [va, vb])
    if not eps:
        rep.und('value', text, None, 'numpy side: %s' % getattr(c, 'note', ''))
        return
    I.closed = {a: ['x'], b: ['x']}
    I.explicit_only = True
    facts = {mkis(a, b): False}
    for k in I.chclasses:
        if k is not I.ch:
            facts[T('isinstance', a, k)] = facts[T('isinstance', b, k)] = False
    try:
        cps = c.run(fc, [a, b], facts=facts)
    finally:
        I.closed = {}
        I.explicit_only = False
    if not cps:
        rep.und('value', text, None, getattr(c, 'note', ''))
        return
    loc = target(c, cps) or (None, 0, text)
    n = 0
    und = None
    todo = with_equal([s for s in shapes if s]) if shapes[0] else [()]
    base = len(todo)
    k = 0
    while k < len(todo):
        shp = todo[k]
        k += 1
        env = {}
        del GENERIC[:]
        for nm, t, q in zip('ab', (a, b), shp):
            A = sym(nm, q)
            env[T('val', t)] = A
            env[t] = A
            env[T('attr', t, 'r')] = A
            env[T('attr', t, 'x')] = A
        exp = evaluate(c, eps, env, False)
        exp = [x for x in exp if x is not None]
        if any(isinstance(x[0], Refused) for x in exp):
            continue
        if len(exp) != 1 or isinstance(exp[0][0], Exception):
            r = structural(c, cps, eps)
            if r is True:
                n += 1
            elif r:
                rep.bad('value', text, loc, r)
                return
            else:
                und = und or ('numpy side: %s' % (exp[0][0] if exp else 'no path'))
            continue
        want = at_least_1d(exp[0][0])
        got = evaluate(c, cps, env, True)
        if k <= base and GENERIC and shp:
            # sizes at which a size comparison of the code goes the other way
            for q in special_shapes(dict(zip('ab', shp)), list(GENERIC)):
                if list(q) not in [list(x) for x in todo] and len(todo) < base + 24:
                    todo.append(tuple(q))
        if not got:
            und = und or 'no path'
        for v, conds, unk, p in got:
            if isinstance(v, Refused):
                continue
            if isinstance(v, Exception):
                r = structural(c, cps, eps)
                if r is True:
                    n += 1
                else:
                    und = und or '%s (%s)' % (v, shapes_text(shp))
                continue
            try:
                ok, why = compare_arrays(at_least_1d(v), want, conds)
            except Und as x:
                und = und or '%s (%s)' % (x, shapes_text(shp))
                continue
            if ok:
                n += 1
            elif unk or conds:
                und = und or 'a condition is not decided: %s' % show(unk[0])[:80] if unk else 'depends on data'
            elif key in MOMENT and same_as(c, fns, i, va, vb, env, v, conds):
                rep.bad('second-moment', text, loc, 'computes the second moment about zero')
                return
            else:
                rep.bad('value', text, loc, 'for %s: %s' % (shapes_text(shp) or 'these arguments', why))
                return
    rep.count('comparisons', n)
    if und:
        rep.und('value', text, loc, und)
    elif not n and key == 'refused':
        rep.ok('value', text, loc, 'refused')
    elif not n:
        rep.und('value', text, loc, 'refused for every shape tried')
    else:
        rep.ok('value', text, loc, 'equal to numpy for %d shapes' % n)


def same_as(c, fns, i, va, vb, env, v, conds):
    ps = c.run(fns['m_%d' % i], [va, vb])
    if not ps or len(ps) != 1:
        return False
    try:
        w = Ev9(env).num(Ev9(env).ev(norm(ps[0].value)))
        return compare_arrays(at_least_1d(v), at_least_1d(w), conds)[0]
    except (Und, Refused):
        return False


def structural(c, cps, eps):
    """True when both sides are the same computation; a message when the same numpy function is called with other arguments."""
    if len(eps) != 1 or eps[0].outcome != 'return':
        return None
    live = [p for p in cps if p.outcome == 'return']
    if len(live) != 1:
        return None
    x = clean(plain(c, live[0], norm(live[0].value)))
    y = clean(norm(eps[0].value))
    if x == y:
        return True
    if random_call(x) and random_call(y) and random_call(x)[0] != random_call(y)[0]:
        return 'calls numpy.%s instead of numpy.%s' % (random_call(x)[0], random_call(y)[0])
    return None


def random_call(x):
    """(name,) of a call of numpy.random."""
    if isinstance(x, tuple) and len(x) > 1 and x[0] == 'ecall' and isinstance(x[1], tuple) and x[1][0] == 'ext':
        n = str(x[1][1])
        if 'random.' in n:
            return (n.split('numpy.')[-1],)
    if isinstance(x, tuple) and len(x) > 1 and x[0] == 'np' and str(x[1]).startswith('random.'):
        return (x[1],)
    return None


def target(c, cps):
    for p in cps:
        v = p.value
        if isinstance(v, Term) and v.op == 'new':
            m = c.method(v.a[0], 'compute_r')
            if m is not None:
                return c.fnloc(m)
    return None


def offered(c, rep):
    """Names of numpy the library offers and no form covers."""
    m = c.I.mods.get(c.I.pkg)
    have = set()
    for key, e, _ in FORMS:
        import re
        have.update(re.findall(r'F\.([A-Za-z_0-9.]+)\(', e[0]))
    for n in sorted(m.env if m is not None else ()):
        if n in SIG and n not in have and n not in ('copy', 'copyto', 'tril', 'triu'):    # copy: C11; the others are refused
            rep.und('value', n, None, 'no call of it is evaluated')


def named(c):
    """Functions bound to a numpy name in the modules the library offers."""
    I = c.I
    seen = set()
    for mod in (I.pkg, I.pkg + '.linalg'):
        m = I.mods.get(mod)
        for short, f in sorted((m.env if m is not None else {}).items(), key=lambda x: str(x[0])):
            name = ('linalg.' if mod.endswith('.linalg') else '') + str(short)
            if not isinstance(f, Term) or f.op != 'fn' or name not in SIG:
                continue
            i = I.fns[f.a[0]]
            if isinstance(i.node, ast.FunctionDef) and c.lib_fn(i):
                yield mod, name, f, i


def defaults(c, rep):
    """Options of functions under numpy names whose default is not numpy's."""
    I = c.I
    for mod, name, f, i in named(c):
        sig = dict(SIG[name])
        ar = i.node.args
        loc = c.fnloc(f)
        ds = [None] * (len(ar.args) - len(ar.defaults)) + list(ar.defaults)
        bad = None
        mine = [x.arg for x in ar.args if x.arg in sig]
        theirs = [n for n, _ in SIG[name] if n in mine]
        if mine != theirs:
            bad = ('order', 'takes %s in the order %s' % (', '.join(theirs), ', '.join(mine)))
        for x, d in zip(ar.args, ds):
            if x.arg not in sig or d is None:
                continue
            try:
                v = ast.literal_eval(d)
            except ValueError:
                continue
            if sig[x.arg] is REQ:
                continue
            if v != sig[x.arg] and not (sig[x.arg] == 'warn') and (x.arg, v) != ('kind', 'quicksort'):
                bad = bad or (x.arg, 'the default of %s is %r, not %r' % (x.arg, v, sig[x.arg]))
        if bad:
            rep.bad('defaults', '%s(%s)' % (name, bad[0]), loc, bad[1])
        else:
            rep.ok('defaults', name, loc, 'names, order and defaults of numpy')
