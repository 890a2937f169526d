"""Symbolic-shape index calculus: integer polynomials, scalar expressions, differentiation, identity testing.

Nothing here runs analysed code: the objects are the closed-form element expressions that the analysis
extracted from it."""
import itertools
import math
import random
from fractions import Fraction


class Und(Exception):
    """The domain cannot represent this."""


# ------------------------------------------------------------------ integer polynomials
# a polynomial is a tuple of (monomial, coefficient), monomial = sorted tuple of atoms (strings or tuples)
def _norm(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=repr))


def pc(c):
    c = Fraction(c)
    return ((((), c)),) if c else ()


def pv(a):
    return (((a,), Fraction(1)),)


def padd(*ps):
    d = {}
    for p in ps:
        for m, c in p:
            d[m] = d.get(m, 0) + c
    return _norm(d)


def pneg(p):
    return tuple((m, -c) for m, c in p)


def psub(a, b):
    return padd(a, pneg(b))


def pmul(*ps):
    r = pc(1)
    for p in ps:
        d = {}
        for m1, c1 in r:
            for m2, c2 in p:
                m = tuple(sorted(m1 + m2, key=repr))
                d[m] = d.get(m, 0) + c1 * c2
        r = _norm(d)
    return r


def pconst(p):
    """The constant a polynomial is, or None."""
    if p == ():
        return Fraction(0)
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def pdiv(a, b):
    """Exact quotient a/b for a monomial b, or None."""
    if len(b) != 1:
        if a == b:
            return pc(1)
        # try division of a by polynomial b when a = b * monomial
        if len(a) == len(b) and b:
            for m2, c2 in b:
                q = pdiv((a[0],), ((m2, c2),))
                if q is not None and pmul(q, b) == a:
                    return q
        if len(b) == 0:
            return None
        return pdiv_long(a, b)
    bm, bc = b[0]
    out = {}
    for m, c in a:
        rest = list(m)
        for x in bm:
            if x in rest:
                rest.remove(x)
            else:
                return None
        out[tuple(rest)] = c / bc
    return _norm(out)


def pdiv_long(a, b):
    # a = q*b with q a polynomial: try monomials of a over monomials of b
    for m, c in a:
        for m2, c2 in b:
            q = pdiv(((m, c),), ((m2, c2),))
            if q is None:
                continue
            r = psub(a, pmul(q, b))
            if len(r) < len(a):
                if r == ():
                    return q
                q2 = pdiv_long(r, b)
                if q2 is not None:
                    return padd(q, q2)
    return None


def atoms_of(p, out=None):
    if out is None:
        out = set()
    for m, c in p:
        for a in m:
            out.add(a)
            if isinstance(a, tuple):
                for q in _polys_in(a):
                    atoms_of(q, out)
    return out


def _ispoly(x):
    return isinstance(x, tuple) and all(isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and isinstance(t[1], Fraction) for t in x)


def _polys_in(a):
    for x in a[1:]:
        if isinstance(x, tuple) and x and x[0] == 'P':
            yield x[1]


def psubst(p, s):
    """Substitute index variables by polynomials (also inside opaque atoms)."""
    if not s:
        return p
    r = ()
    for m, c in p:
        t = pc(c)
        for a in m:
            t = pmul(t, asubst(a, s))
        r = padd(r, t)
    return r


def asubst(a, s):
    if isinstance(a, str):
        return s.get(a, pv(a)) if a in s else pv(a)
    na = tuple(('P', psubst(x[1], s)) if isinstance(x, tuple) and x and x[0] == 'P' else
               (('E', esubst(x[1], s)) if isinstance(x, tuple) and x and x[0] == 'E' else x) for x in a)
    if na[0] == 'mod':
        return pmod(na[1][1], na[2][1])
    return pv(na)


def pmod(p, n):
    c, k = pconst(p), pconst(n)
    if c is not None and k:
        return pc(c % k)
    # drop multiples of n
    out = {}
    for m, co in p:
        if pdiv(((m, co),), n) is not None and n != pc(1):
            continue
        out[m] = co
    return pv(('mod', ('P', _norm(out)), ('P', n)))


def pshow(p):
    if not p:
        return '0'
    return '+'.join(('%s' % c if not m else ('' if c == 1 else '%s*' % c) + '*'.join(ashow(a) for a in m)) for m, c in p)


def ashow(a):
    if isinstance(a, str):
        return a
    return '%s(%s)' % (a[0], ','.join(pshow(x[1]) if isinstance(x, tuple) and x and x[0] == 'P' else str(x)[:20] for x in a[1:]))


# ------------------------------------------------------------------ scalar expressions
def num(c):
    if isinstance(c, float) and (not math.isfinite(c) or c != int(c)):
        return ('n', c)
    return ('n', Fraction(c))


ZERO = ('n', Fraction(0))
ONE = ('n', Fraction(1))


def ix(p):
    c = pconst(p)
    return ('n', c) if c is not None else ('ix', p)


def isnum(e):
    return e[0] == 'n'


def add(*es):
    out = []
    k = Fraction(0)
    p = ()
    for e in es:
        if e[0] == '+':
            xs = e[1:]
        else:
            xs = (e,)
        for x in xs:
            if x[0] == 'n':
                k = k + x[1]
            elif x[0] == 'ix':
                p = padd(p, x[1])
            else:
                out.append(x)
    if p != () and isinstance(k, Fraction):
        p = padd(p, pc(k))
        k = Fraction(0)
    if p != ():
        e = ix(p)
        if e[0] == 'n':
            k = k + e[1]
        else:
            out.append(e)
    if k != 0 or not out:
        out.append(('n', k))
    if len(out) == 1:
        return out[0]
    return ('+',) + tuple(sorted(out, key=repr))


def mul(*es):
    out = []
    k = Fraction(1)
    p = None
    for e in es:
        xs = e[1:] if e[0] == '*' else (e,)
        for x in xs:
            if x[0] == 'n':
                k = k * x[1]
            elif x[0] == 'ix':
                p = x[1] if p is None else pmul(p, x[1])
            else:
                out.append(x)
    if k == 0:
        return ZERO
    if p is not None:
        if isinstance(k, Fraction):
            p = pmul(p, pc(k))
            k = Fraction(1)
        e = ix(p)
        if e[0] == 'n':
            k = k * e[1]
        else:
            out.append(e)
    if k == 0:
        return ZERO
    if k != 1 or not out:
        out.append(('n', k))
    if len(out) == 1:
        return out[0]
    return ('*',) + tuple(sorted(out, key=repr))


def power(b, e):
    if isnum(e):
        if e[1] == 1:
            return b
        if e[1] == 0:
            return ONE
        if isnum(b) and isinstance(b[1], Fraction) and isinstance(e[1], Fraction) and e[1].denominator == 1 and b[1] != 0:
            return ('n', b[1] ** int(e[1]))
        if b[0] == 'ix' and isinstance(e[1], Fraction) and e[1].denominator == 1 and 0 < e[1] < 6:
            return ix(pmul(*([b[1]] * int(e[1]))))
    return ('^', b, e)


def neg(e):
    return mul(('n', Fraction(-1)), e)


def div(a, b):
    if a[0] == 'ix' and b[0] in ('ix', 'n') :
        q = pdiv(a[1], b[1] if b[0] == 'ix' else pc(b[1])) if b[0] == 'ix' or isinstance(b[1], Fraction) else None
        if q is not None:
            return ix(q)
    return mul(a, power(b, ('n', Fraction(-1))))


def fn(name, *args):
    if name == 'negative':
        return neg(args[0])
    if name == 'reciprocal':
        return power(args[0], ('n', Fraction(-1)))
    if name == 'square':
        return power(args[0], ('n', Fraction(2)))
    if name == 'sqrt':
        return power(args[0], ('n', Fraction(1, 2)))
    return ('f', name) + args


def ind(c):
    """Indicator of a condition (op, e1, e2)."""
    v = cond_const(c)
    if v is not None:
        return ONE if v else ZERO
    return ('ind', c)


def cond_const(c):
    op = c[0]
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'not':
        v = cond_const(c[1])
        return None if v is None else not v
    if op in ('and', 'or'):
        vs = [cond_const(x) for x in c[1:]]
        if op == 'and':
            return False if any(v is False for v in vs) else (True if all(v is True for v in vs) else None)
        return True if any(v is True for v in vs) else (False if all(v is False for v in vs) else None)
    a, b = c[1], c[2]
    if a == b:
        return op in ('eq', 'le', 'ge')
    if isnum(a) and isnum(b):
        return {'eq': a[1] == b[1], 'ne': a[1] != b[1], 'lt': a[1] < b[1], 'le': a[1] <= b[1], 'gt': a[1] > b[1], 'ge': a[1] >= b[1]}[op]
    return None


def esum(var, body, sizes):
    """Sum over an index variable."""
    if var not in free_vars(body):
        return mul(ix(sizes[var]), body)
    return ('sum', var, body)


def esubst(e, s):
    if not s:
        return e
    memo = {}

    def go(e):
        r = memo.get(e)
        if r is not None:
            return r
        k = e[0]
        if k == 'n':
            r = e
        elif k == 'ix':
            r = ix(psubst(e[1], s))
        elif k in ('x', 'o'):
            r = (k, e[1], tuple(psubst(p, s) for p in e[2])) + e[3:]
        elif k == '+':
            r = add(*[go(x) for x in e[1:]])
        elif k == '*':
            r = mul(*[go(x) for x in e[1:]])
        elif k == '^':
            r = power(go(e[1]), go(e[2]))
        elif k == 'f':
            r = ('f', e[1]) + tuple(go(x) for x in e[2:])
        elif k == 'ind':
            r = ind(csubst(e[1], go))
        elif k == 'sum':
            if e[1] in s:
                s2 = {a: b for a, b in s.items() if a != e[1]}
                r = ('sum', e[1], esubst(e[2], s2))
            else:
                r = ('sum', e[1], go(e[2]))
        elif k == 'mat':
            r = ('mat', e[1], e[2], tuple(psubst(p, s) for p in e[3]))
        else:
            raise Und('substitution in ' + k)
        memo[e] = r
        return r
    return go(e)


def csubst(c, go):
    if c[0] in ('and', 'or', 'not'):
        return (c[0],) + tuple(csubst(x, go) for x in c[1:])
    if c[0] in ('true', 'false'):
        return c
    return (c[0], go(c[1]), go(c[2]))


def free_vars(e, bound=()):
    out = set()

    def pol(p):
        for a in atoms_of(p):
            if isinstance(a, str):
                out.add(a)
            else:
                for x in a[1:]:
                    if isinstance(x, tuple) and x and x[0] == 'E':
                        out.update(free_vars(x[1]))

    def cond(c):
        if c[0] in ('and', 'or', 'not'):
            for x in c[1:]:
                cond(x)
        elif c[0] not in ('true', 'false'):
            go(c[1])
            go(c[2])

    def go(e):
        k = e[0]
        if k == 'ix':
            pol(e[1])
        elif k in ('x', 'o'):
            for p in e[2]:
                pol(p)
        elif k in ('+', '*', '^'):
            for x in e[1:]:
                go(x)
        elif k == 'f':
            for x in e[2:]:
                go(x)
        elif k == 'ind':
            cond(e[1])
        elif k == 'sum':
            out.update(free_vars(e[2]) - set([e[1]]))
        elif k == 'mat':
            for p in e[3]:
                pol(p)
    go(e)
    return out


def has_x(e, name=None):
    found = []

    def cond(c):
        if c[0] in ('and', 'or', 'not'):
            for x in c[1:]:
                cond(x)
        elif c[0] not in ('true', 'false'):
            go(c[1])
            go(c[2])

    def go(e):
        k = e[0]
        if k == 'x':
            if name is None or e[1] == name:
                found.append(e)
        elif k in ('+', '*', '^'):
            for x in e[1:]:
                go(x)
        elif k == 'f':
            for x in e[2:]:
                go(x)
        elif k == 'ind':
            cond(e[1])
        elif k == 'sum':
            go(e[2])
        elif k == 'mat':
            found.append(e)
    go(e)
    return bool(found)


# ------------------------------------------------------------------ differentiation
_fresh = itertools.count()
SIZES = {}          # index variable -> size polynomial


def fresh(size, hint='v'):
    v = '%s%d' % (hint, next(_fresh))
    SIZES[v] = size
    return v


def diff(e, names):
    """Derivative of e with respect to entries of the arrays in `names`:
    list of (bound variables, array name, index tuple, expression)."""
    k = e[0]
    if k in ('n', 'ix', 'o'):
        return []
    if k == 'ind':
        return []
    if k == 'x':
        return [((), e[1], e[2], ONE)] if e[1] in names else []
    if k == '+':
        return [t for x in e[1:] for t in diff(x, names)]
    if k == '*':
        out = []
        for i, x in enumerate(e[1:]):
            ds = diff(x, names)
            if ds:
                rest = mul(*(e[1:][:i] + e[1:][i + 1:])) if len(e) > 2 else ONE
                out += [(b, n, idx, mul(rest, d)) for b, n, idx, d in ds]
        return out
    if k == '^':
        out = []
        db, de = diff(e[1], names), diff(e[2], names)
        if db:
            f = mul(e[2], power(e[1], add(e[2], ('n', Fraction(-1)))))
            out += [(b, n, i, mul(f, d)) for b, n, i, d in db]
        if de:
            f = mul(fn('log', e[1]), e)
            out += [(b, n, i, mul(f, d)) for b, n, i, d in de]
        return out
    if k == 'sum':
        ds = diff(e[2], names)
        out = []
        for b, n, i, d in ds:
            v = fresh(SIZES[e[1]])
            s = {e[1]: pv(v)}
            out.append((b + (v,), n, tuple(psubst(p, s) for p in i), esubst(d, s)))
        return out
    if k == 'mat':
        # ('mat', kind, matrix description, indices): kinds inv/det/logdet of the array `name`
        kind, desc, idx = e[1], e[2], e[3]
        name, batch, n = desc[0], desc[1], desc[2]
        if name not in names:
            return []
        kk, ll = fresh(n), fresh(n)
        nb = batch
        B = idx[:nb]
        if kind == 'inv':
            i, j = idx[nb:]
            d = neg(mul(('mat', 'inv', desc, B + (i, pv(kk))), ('mat', 'inv', desc, B + (pv(ll), j))))
        elif kind == 'det':
            d = mul(e, ('mat', 'inv', desc, B + (pv(ll), pv(kk))))
        elif kind == 'logdet':
            d = ('mat', 'inv', desc, B + (pv(ll), pv(kk)))
        elif kind == 'sign':
            return []
        else:
            raise Und('derivative of ' + kind)
        return [((kk, ll), name, B + (pv(kk), pv(ll)), d)]
    if k == 'f':
        nm, args = e[1], e[2:]
        ds = [diff(a, names) for a in args]
        if not any(ds):
            return []
        x = args[0]
        two, mone = ('n', Fraction(2)), ('n', Fraction(-1))
        if nm in ('maximum', 'minimum'):
            a, b = args
            op = 'gt' if nm == 'maximum' else 'lt'
            same = ind(('eq', a, b))
            half = ('n', Fraction(1, 2))
            out = [(bb, n, i, mul(ind((op, a, b)), d)) for bb, n, i, d in ds[0]]
            out += [(bb, n, i, mul(ind((op, b, a)), d)) for bb, n, i, d in ds[1]]
            if a == b:
                return ds[0]
            return out
        if nm in ('floor', 'ceil', 'sign', 'rint', 'trunc', 'isnan', 'isinf', 'isfinite', 'logical_not'):
            return []
        one_m = add(ONE, neg(power(x, two)))
        table = {
            'exp': lambda: e,
            'log': lambda: power(x, mone),
            'sin': lambda: ('f', 'cos', x),
            'cos': lambda: neg(('f', 'sin', x)),
            'tan': lambda: power(('f', 'cos', x), ('n', Fraction(-2))),
            'arcsin': lambda: power(one_m, ('n', Fraction(-1, 2))),
            'arccos': lambda: neg(power(one_m, ('n', Fraction(-1, 2)))),
            'arctan': lambda: power(add(ONE, power(x, two)), mone),
            'absolute': lambda: add(ind(('gt', x, ZERO)), neg(ind(('lt', x, ZERO)))),
            'sinh': lambda: ('f', 'cosh', x),
            'cosh': lambda: ('f', 'sinh', x),
            'tanh': lambda: add(ONE, neg(power(e, two))),
            'log2': lambda: power(mul(x, fn('log', two)), mone),
            'log10': lambda: power(mul(x, fn('log', ('n', Fraction(10)))), mone),
            'log1p': lambda: power(add(ONE, x), mone),
            'expm1': lambda: fn('exp', x),
            'exp2': lambda: mul(e, fn('log', two)),
            'gamma': lambda: mul(e, ('f', 'digamma', x)),
            'gammaln': lambda: ('f', 'digamma', x),
        }
        if nm == 'arctan2':
            y, x2 = args
            r = power(add(power(y, two), power(x2, two)), mone)
            return [(b, n, i, mul(x2, r, d)) for b, n, i, d in ds[0]] + [(b, n, i, mul(mone, y, r, d)) for b, n, i, d in ds[1]]
        if nm not in table:
            raise Und('derivative of ' + nm)
        f = table[nm]()
        return [(b, n, i, mul(f, d)) for b, n, i, d in ds[0]]
    raise Und('derivative of ' + k)


# ------------------------------------------------------------------ evaluation of expressions (identity testing)
class Model(object):
    """A random finite model: sizes, index values, array entries."""
    def __init__(self, rnd, mode=0):
        self.rnd = rnd
        self.mode = mode
        self.vals = {}
        self.size = {}
        self.iv = {}

    def entry(self, key):
        if key not in self.vals:
            r = self.rnd
            m = self.mode % 4
            if m == 0:
                v = r.uniform(0.05, 0.95)
            elif m == 1:
                v = r.uniform(-0.95, 0.95)
            elif m == 2:
                v = r.uniform(1.05, 3.0)
            else:
                v = r.uniform(-3.0, 3.0)
            self.vals[key] = v
        return self.vals[key]

    def sizeof(self, s):
        if s not in self.size:
            self.size[s] = self.rnd.choice([2, 3])
        return self.size[s]

    def poly(self, p):
        t = 0
        for m, c in p:
            x = c
            for a in m:
                x = x * self.atom(a)
            t += x
        return int(t) if isinstance(t, Fraction) and t.denominator == 1 else t

    def atom(self, a):
        if isinstance(a, str):
            if a in self.iv:
                return self.iv[a]
            if a in SIZES:
                n = self.poly(SIZES[a])
                self.iv[a] = self.rnd.randrange(int(n)) if n >= 1 else 0
                return self.iv[a]
            return self.sizeof(a)
        if a[0] == 'mod':
            n = self.poly(a[2][1])
            return self.poly(a[1][1]) % n if n else 0
        if a[0] == 'optint':
            return int(abs(hash_entry(self, ('optint', a[1]) + tuple(self.poly(x[1]) for x in a[2:] if isinstance(x, tuple) and x and x[0] == 'P'))) * 7)
        if a[0] in ('am', 'as', 'cnt'):
            key = (a[0],) + tuple(self.poly(x[1]) if isinstance(x, tuple) and x and x[0] == 'P' else x for x in a[1:])
            if key not in self.vals:
                n = self.poly(a[-1][1])
                self.vals[key] = self.rnd.randrange(int(n)) if n >= 1 else 0
            return self.vals[key]
        raise Und('value of atom %s' % a[0])

    def ev(self, e):
        k = e[0]
        if k == 'n':
            return float(e[1])
        if k == 'ix':
            return float(self.poly(e[1]))
        if k == 'x' or k == 'o':
            return self.entry((e[1],) + tuple(self.poly(p) for p in e[2]))
        if k == '+':
            return math.fsum(self.ev(x) for x in e[1:])
        if k == '*':
            r = 1.0
            z = False
            for x in e[1:]:
                v = self.ev(x)
                r *= v
            return r
        if k == '^':
            b, x = self.ev(e[1]), self.ev(e[2])
            if b == 0 and x < 0:
                raise ZeroDivisionError
            if b < 0 and x != int(x):
                raise ValueError
            return b ** x
        if k == 'ind':
            return 1.0 if self.cond(e[1]) else 0.0
        if k == 'sum':
            n = int(self.poly(SIZES[e[1]]))
            old = self.iv.get(e[1])
            t = []
            for i in range(n):
                self.iv[e[1]] = i
                t.append(self.ev(e[2]))
            if old is None:
                self.iv.pop(e[1], None)
            else:
                self.iv[e[1]] = old
            return math.fsum(t)
        if k == 'mat':
            return self.entry(('mat', e[1], e[2][0]) + tuple(self.poly(p) for p in e[3]))
        if k == 'f':
            return self.func(e[1], [self.ev(x) for x in e[2:]])
        raise Und('value of ' + k)

    def cond(self, c):
        op = c[0]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'and':
            return all(self.cond(x) for x in c[1:])
        if op == 'or':
            return any(self.cond(x) for x in c[1:])
        if op == 'not':
            return not self.cond(c[1])
        a, b = self.ev(c[1]), self.ev(c[2])
        tol = 1e-12 * max(1.0, abs(a), abs(b))
        eq = abs(a - b) <= tol
        return {'eq': eq, 'ne': not eq, 'lt': a < b and not eq, 'le': a < b or eq, 'gt': a > b and not eq, 'ge': a > b or eq}[op]

    def func(self, f, a):
        x = a[0]
        if f == 'pick':
            return float(int(abs(a[0]) * 7.0) % int(a[1]))
        if f == 'eps':
            i, j, k = [int(v) for v in a]
            return float((i - j) * (j - k) * (k - i) / 2)
        if f in ('exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'log2', 'log10', 'log1p', 'expm1', 'floor', 'ceil', 'gamma'):
            return float(getattr(math, f)(x))
        if f in ('arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh', 'arctanh'):
            return getattr(math, 'a' + f[3:])(x)
        if f == 'arctan2':
            return math.atan2(x, a[1])
        if f == 'absolute':
            return abs(x)
        if f == 'sign':
            return float((x > 0) - (x < 0))
        if f == 'maximum':
            return max(a)
        if f == 'minimum':
            return min(a)
        if f == 'digamma':
            return digamma(x)
        if f == 'exp2':
            return 2.0 ** x
        if f == 'rint':
            return float(round(x))
        if f == 'trunc':
            return float(int(x))
        if f == 'mod':
            return x % a[1]
        if f == 'floordiv':
            return float(x // a[1])
        raise Und('value of function ' + f)


def hash_entry(m, key):
    return m.entry(key)


def digamma(x):
    r = 0.0
    if x <= 0 and x == int(x):
        raise ValueError
    if x < 0:
        return digamma(1 - x) - math.pi / math.tan(math.pi * x)
    while x < 10:
        r -= 1.0 / x
        x += 1
    f = 1.0 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (1.0 / 12 - f * (1.0 / 120 - f * (1.0 / 252 - f * (1.0 / 240 - f / 132.0))))


def same(a, b, seed=1, tries=40):
    """True: identical on every random finite model tried; False: a model separates them (returned second)."""
    if a == b:
        return True, None
    good = 0
    for t in range(tries):
        m = Model(random.Random(seed * 1000 + t), t)
        try:
            x = m.ev(a)
            y = m.ev(b)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex) or math.isnan(x) or math.isnan(y):
            continue
        good += 1
        if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
            return False, (x, y)
    if good < 3:
        raise Und('no usable model')
    return True, None


def show(e):
    k = e[0]
    if k == 'n':
        return str(e[1])
    if k == 'ix':
        return pshow(e[1])
    if k in ('x', 'o'):
        return '%s[%s]' % (e[1], ','.join(pshow(p) for p in e[2]))
    if k == '+':
        return '(' + ' + '.join(show(x) for x in e[1:]) + ')'
    if k == '*':
        return '*'.join(show(x) for x in e[1:])
    if k == '^':
        return '(%s)^(%s)' % (show(e[1]), show(e[2]))
    if k == 'f':
        return '%s(%s)' % (e[1], ', '.join(show(x) for x in e[2:]))
    if k == 'ind':
        return '[%s]' % cshow(e[1])
    if k == 'sum':
        return 'sum_%s %s' % (e[1], show(e[2]))
    if k == 'mat':
        return '%s(%s)[%s]' % (e[1], e[2][0], ','.join(pshow(p) for p in e[3]))
    return str(e)


def cshow(c):
    if c[0] in ('and', 'or', 'not'):
        return '%s(%s)' % (c[0], ', '.join(cshow(x) for x in c[1:]))
    if c[0] in ('true', 'false'):
        return c[0]
    return '%s %s %s' % (show(c[1]), c[0], show(c[2]))
