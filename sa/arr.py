"""Array domain: arrays of symbolic shape as closed-form element expressions, sparse matrices as entry families.

An array is (axes, elem): each axis is a tuple of index variables (major to minor) and elem is the scalar
expression of the entry at those indices.  Operations of numpy/scipy.sparse are transfer functions on this
domain.  Nothing of the analysed program is executed: the input is the value term the path analysis extracted."""
import itertools
import random
from fractions import Fraction
from .idx import *
from . import idx as X
from .terms import T, Term, is_c, cv, NONE

P1 = pc(1)


class Arr(object):
    __slots__ = ('axes', 'elem', 'isbool', 'isint')

    def __init__(self, axes, elem):
        self.axes = tuple(tuple(a) for a in axes)
        self.elem = elem

    @property
    def ndim(self):
        return len(self.axes)

    def shape(self):
        return [fsize(a) for a in self.axes]

    def size(self):
        return pmul(*self.shape()) if self.axes else P1

    def __repr__(self):
        return 'Arr%s %s' % ([pshow(s) for s in self.shape()], show(self.elem))


class Sp(object):
    """Sparse matrix: entries given by terms (vars, condition, row expr, col expr, value expr); duplicates add."""
    _n = itertools.count()

    def __init__(self, terms, shape, order=None):
        self.terms = terms
        self.shape = shape
        self.order = order          # (base Sp, data Arr): entries of base in column order get the data
        self.id = next(Sp._n)
        SPS[self.id] = self


SPS = {}
GUARD = {}      # gid -> (sizes, cond over g0..)
GIDS = {}
ARGS = {}       # key id -> (nq, sizes of axis vars, elem over q*, r*)
ARGIDS = {}


class Map(object):
    """[body for var in range(size)]"""
    def __init__(self, var, body):
        self.var, self.body = var, body


class NA(object):
    def __repr__(self):
        return '<opaque>'


def fsize(fac):
    return pmul(*[SIZES[v] for v in fac]) if fac else P1


def sc(e):
    return Arr((), e)


def scp(p):
    return sc(ix(p))


def to_poly(v):
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        return pc(v)
    if isinstance(v, Arr) and all(fsize(a) == P1 for a in v.axes):
        e = v.elem
        if e[0] == 'n' and isinstance(e[1], Fraction):
            return pc(e[1])
        if e[0] == 'ix':
            return e[1]
    raise Und('not an index: %r' % (v,))


def to_int(v):
    c = pconst(to_poly(v))
    if c is None or c.denominator != 1:
        raise Und('not a constant integer')
    return int(c)


def newvar(n):
    """Axis factors for an axis of size n."""
    return () if n == P1 else (fresh(n),)


def lin(fac):
    p = ()
    for v in fac:
        p = padd(pmul(p, SIZES[v]), pv(v))
    return p


def idiv(a, b):
    q = pdiv(a, b)
    if q is None or any(c.denominator != 1 for m, c in q):
        return None
    return q


def amax_of(p):
    """Largest value of an index polynomial whose coefficients are non-negative, or None."""
    s = {}
    for m, c in p:
        if c < 0:
            return None
        for a in m:
            n = asize(a)
            if n is not None:
                s[a] = psub(n, P1)
    return psub_atoms(p, s)


def asize(a):
    if isinstance(a, str):
        return SIZES.get(a)
    if a[0] in ('am', 'as', 'sel', 'ie', 'mod') and isinstance(a[-1], tuple) and a[-1][0] == 'P':
        return a[-1][1]
    return None


def psub_atoms(p, s):
    r = ()
    for m, c in p:
        t = pc(c)
        for a in m:
            t = pmul(t, s[a] if a in s else pv(a))
        r = padd(r, t)
    return r


def psign(p):
    """+1/-1/0 sign that holds for all sizes >= 2, None if unknown.  Index variables not allowed."""
    d = p
    c = pconst(p)
    if c is not None:
        return (c > 0) - (c < 0)
    s = {}
    for a in atoms_of(p):
        if isinstance(a, str) and a not in SIZES:
            s[a] = padd(pv(a), pc(2))
        elif isinstance(a, tuple) and a[0] == 'cnt':
            s[a] = pv(a)
        else:
            return None
    q = psub_atoms(p, s)
    k = [c for m, c in q]
    c0 = [c for m, c in q if m == ()]
    if all(x >= 0 for x in k) and c0 and c0[0] > 0:
        return 1
    if all(x <= 0 for x in k) and c0 and c0[0] < 0:
        return -1
    return None


def fdiv(p, n):
    c, k = pconst(p), pconst(n)
    if c is not None and k:
        return pc(c // k)
    if n == P1:
        return p
    return pv(('fdiv', ('P', p), ('P', n)))


def digits(p, fac):
    """Index of each factor when the axis made of `fac` is indexed by p."""
    if not fac:
        return {}
    if len(fac) == 1:
        return {fac[0]: p}
    out = {}
    rest = p
    for v in reversed(fac[1:]):
        n = SIZES[v]
        hi, lo = {}, {}
        for m, c in rest:
            q = idiv(((m, c),), n)
            if q is not None and n != P1:
                hi = dict(padd(tuple(hi.items()), q))
            else:
                lo[m] = c
        hip, lop = X._norm(hi), X._norm(lo)
        mx = amax_of(lop)
        fits = mx is not None and psign(psub(n, mx)) == 1
        if fits:
            out[v] = lop
            rest = hip
        else:
            out[v] = X.pmod(rest, n)
            rest = fdiv(rest, n)
    out[fac[0]] = rest
    return out


def freshen(A):
    s = {}
    axes = []
    for fac in A.axes:
        nf = []
        for v in fac:
            w = fresh(SIZES[v])
            s[v] = pv(w)
            nf.append(w)
        axes.append(tuple(nf))
    return Arr(axes, esubst(A.elem, s))


def sub_axis(A, k, p):
    """Entry of axis k at index p: (elem with that axis replaced)."""
    return esubst(A.elem, digits(p, A.axes[k]))


def refine(fa, fb, subs):
    if fa == fb:
        return fa
    a, b, out = list(fa), list(fb), []
    if fsize(fa) != fsize(fb):
        na, nb = fsize(fa), fsize(fb)
        plain = all(isinstance(x, str) for q in (na, nb) for m, c in q for x in m)
        raise (Refused if plain else Und)('shapes do not match: %s vs %s' % (pshow(na), pshow(nb)))
    trial = []
    ok = True
    while a and b:
        va, vb = a[-1], b[-1]
        na, nb = SIZES[va], SIZES[vb]
        if na == nb:
            a.pop()
            b.pop()
            out.append(va)
            if va != vb:
                trial.append({vb: pv(va)})
        elif idiv(na, nb) is not None:
            hi = fresh(idiv(na, nb))
            trial.append({va: padd(pmul(pv(hi), nb), pv(vb))})
            a[-1] = hi
            b.pop()
            out.append(vb)
        elif idiv(nb, na) is not None:
            hi = fresh(idiv(nb, na))
            trial.append({vb: padd(pmul(pv(hi), na), pv(va))})
            b[-1] = hi
            a.pop()
            out.append(va)
        else:
            ok = False
            break
    if ok and not a and not b:
        subs.extend(trial)
        return tuple(reversed(out))
    w = fresh(fsize(fa))
    subs.append(digits(pv(w), fa))
    subs.append(digits(pv(w), fb))
    return (w,)


def broadcast(As):
    """Common axes and element expressions."""
    As = [As[0]] + [freshen(A) for A in As[1:]]
    nd = max(A.ndim for A in As)
    pad = [((),) * (nd - A.ndim) + A.axes for A in As]
    subs = []
    axes = []

    def upd(f):
        return f
    for k in range(nd):
        cur = ()
        for i in range(len(As)):
            f = pad[i][k]
            if not f:
                continue
            if not cur:
                cur = f
            else:
                cur = refine(cur, f, subs)
        axes.append(cur)
    es = []
    for A in As:
        e = A.elem
        for s in subs:
            e = esubst(e, s)
        es.append(e)
    # refinement may have split a variable introduced earlier on the same axis: re-derive axes from substitutions
    return tuple(axes), es


def bc(f, *As):
    axes, es = broadcast(list(As))
    return Arr(axes, f(*es))


def reshape(A, dims):
    dims = list(dims)
    if any(isinstance(d, int) and d == -1 for d in dims):
        rest = P1
        for d in dims:
            if not (isinstance(d, int) and d == -1):
                rest = pmul(rest, d)
        q = idiv(A.size(), rest)
        if q is None:
            raise Und('reshape -1')
        dims = [q if isinstance(d, int) and d == -1 else d for d in dims]
    tot = pmul(*dims) if dims else P1
    if tot != A.size():
        raise Und('reshape %s to %s' % (pshow(A.size()), pshow(tot)))
    fac = [v for f in A.axes for v in f]
    subs = []
    groups = []
    ok = True
    cur = list(fac)
    for d in reversed(dims):
        g = []
        need = d
        while need != P1:
            if not cur:
                ok = False
                break
            v = cur[-1]
            n = SIZES[v]
            q = idiv(need, n)
            if q is not None:
                g.append(v)
                cur.pop()
                need = q
                continue
            q = idiv(n, need)
            if q is not None:
                hi, lo = fresh(q), fresh(need)
                subs.append({v: padd(pmul(pv(hi), need), pv(lo))})
                cur[-1] = hi
                g.append(lo)
                need = P1
                continue
            ok = False
            break
        if not ok:
            break
        groups.append(tuple(reversed(g)))
    if ok and not cur:
        e = A.elem
        for s in subs:
            e = esubst(e, s)
        return Arr(tuple(reversed(groups)), e)
    axes = [newvar(d) for d in dims]
    p = ()
    for f, d in zip(axes, dims):
        p = padd(pmul(p, d), lin(f))
    return Arr(axes, esubst(A.elem, digits(p, tuple(fac))))


def ravel(A):
    return Arr((tuple(v for f in A.axes for v in f),), A.elem)


def linidx(A):
    p = ()
    for f in A.axes:
        p = padd(pmul(p, fsize(f)), lin(f))
    return p


def atom_expr(e, size):
    """An index polynomial equal to the (integer) expression e."""
    if e[0] == 'ix':
        return e[1]
    if e[0] == 'n':
        return pc(e[1])
    return pv(('ie', ('E', e), ('P', size)))


def ssum(fac, e):
    for v in fac:
        e = esum(v, e, SIZES)
    return e


def asum(A, axis):
    if axis is None:
        return sc(ssum([v for f in A.axes for v in f], A.elem))
    ks = [a % A.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
    e = A.elem
    B = freshen(A)
    return Arr([f for i, f in enumerate(B.axes) if i not in ks], ssum([v for k in ks for v in B.axes[k]], B.elem))


def getaxis(v, nd, what='axis'):
    if v is None:
        return None
    if isinstance(v, tuple) or isinstance(v, list):
        return tuple(getaxis(x, nd) for x in v)
    k = to_int(v)
    if not -nd <= k < nd:
        raise Refused('axis out of range')
    return k % nd


class Refused(Exception):
    """numpy raises here."""


def perm(A, order):
    return Arr([A.axes[i] for i in order], A.elem)


def flipax(A, k):
    s = {v: psub(psub(SIZES[v], P1), pv(v)) for v in A.axes[k]}
    return Arr(A.axes, esubst(A.elem, s))


def dot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return bc(mul, a, b)
    b = freshen(b)
    a = freshen(a)
    kb = b.ndim - 2 if b.ndim >= 2 else 0
    fa, fb = a.axes[-1], b.axes[kb]
    subs = []
    if fsize(fa) != fsize(fb):
        raise Refused('dot shapes')
    c = refine(fa, fb, subs) if fa or fb else ()
    ea, eb = a.elem, b.elem
    for s in subs:
        ea, eb = esubst(ea, s), esubst(eb, s)
    return Arr(a.axes[:-1] + tuple(f for i, f in enumerate(b.axes) if i != kb), ssum(c, mul(ea, eb)))


def matmul(a, b):
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    # batch dimensions broadcast
    b = freshen(b)
    a = freshen(a)
    a1 = Arr(a.axes[:-1] + ((),) + (a.axes[-1],), a.elem)           # ..., i, 1, k
    b1 = Arr(b.axes[:-2] + ((), b.axes[-1], b.axes[-2]), b.elem)    # ..., 1, j, k
    return asum(bc(mul, a1, b1), -1)


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        l = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(l) if l.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops) or '.' in spec:
        raise Und('einsum ' + spec)
    lab = {}
    subs = []
    es = []
    for s, A in zip(ins, ops):
        if len(s) != A.ndim:
            raise Refused('einsum')
        A = freshen(A)
        es.append(A.elem)
        for c, f in zip(s, A.axes):
            lab[c] = refine(lab[c], f, subs) if c in lab else f
    e = mul(*es)
    for s in subs:
        e = esubst(e, s)
    return Arr([lab[c] for c in out], ssum([v for c in sorted(lab) if c not in out for v in lab[c]], e))


def argid(A, k):
    """Register (array, axis) for arg-extrema and sorting; returns (id, index polynomials of the other axes)."""
    A = freshen(A)
    if k is None:
        A = ravel(A)
        k = 0
    other = [v for i, f in enumerate(A.axes) if i != k for v in f]
    ax = A.axes[k]
    s = {}
    for i, v in enumerate(other):
        s[v] = pv('q%d' % i)
    w = 'r0'
    s2 = digits(pv(w), ax)
    s.update(s2)
    e = canon(esubst(A.elem, s))
    key = (len(other), fsize(ax), e)
    if key not in ARGIDS:
        ARGIDS[key] = len(ARGIDS)
        ARGS[ARGIDS[key]] = key
    return ARGIDS[key], A, k, other


def canon(e):
    """Bound variables renamed canonically."""
    n = itertools.count()

    def go(e):
        k = e[0]
        if k == 'sum':
            nm = 'b%d_%s' % (next(n), pshow(SIZES[e[1]]))
            SIZES[nm] = SIZES[e[1]]
            return ('sum', nm, go(esubst(e[2], {e[1]: pv(nm)})))
        if k in ('+', '*'):
            return (add if k == '+' else mul)(*[go(x) for x in e[1:]])
        if k == '^':
            return power(go(e[1]), go(e[2]))
        if k == 'f':
            return ('f', e[1]) + tuple(go(x) for x in e[2:])
        return e
    return go(e)


def extremum(A, axis, kind, arg):
    i, A, k, other = argid(A, axis)
    ax = A.axes[k]
    if not ax:
        e = ZERO if arg else A.elem
        return Arr([f for j, f in enumerate(A.axes) if j != k], e) if axis is not None else sc(e)
    at = pv(('am', kind, i) + tuple(('P', pv(v)) for v in other) + (('P', fsize(ax)),))
    e = ix(at) if arg else esubst(A.elem, digits(at, ax))
    if axis is None:
        return sc(e)
    return Arr([f for j, f in enumerate(A.axes) if j != k], e)


def sorting(A, axis, arg):
    i, A, k, other = argid(A, axis)
    ax = A.axes[k]
    if not ax:
        return Arr(A.axes, ZERO if arg else A.elem)
    w = fresh(fsize(ax))
    at = pv(('as', i, ('P', pv(w))) + tuple(('P', pv(v)) for v in other) + (('P', fsize(ax)),))
    e = ix(at) if arg else esubst(A.elem, digits(at, ax))
    return Arr(A.axes[:k] + ((w,),) + A.axes[k + 1:], e)


def guard_axis(facs, cond):
    """Positions (of the flattened factors) where cond holds: (axis var, substitution of the factors)."""
    v = X.cond_const(cond)
    facs = tuple(facs)
    s = {f: pv('g%d' % i) for i, f in enumerate(facs)}
    c2 = X.csubst(cond, lambda e: canon(esubst(e, s)))
    key = (tuple(SIZES[f] for f in facs), c2)
    if key not in GIDS:
        GIDS[key] = len(GIDS)
        GUARD[GIDS[key]] = key
    gid = GIDS[key]
    w = fresh(pv(('cnt', gid)))
    return w, {f: pv(('sel', gid, i, ('P', pv(w)), ('P', SIZES[f]))) for i, f in enumerate(facs)}


def as_cond(e):
    if e[0] == 'ind':
        return e[1]
    if e[0] == 'n':
        return ('true',) if e[1] != 0 else ('false',)
    if e[0] == 'ix':
        p = e[1]
        k = [c for m, c in p]
        if all(c > 0 for c in k) and any(m == () for m, c in p):
            return ('true',)
    return ('ne', e, ZERO)


def flatnonzero(A):
    A = freshen(A)
    c = as_cond(A.elem)
    fac = [v for f in A.axes for v in f]
    p = linidx(A)
    if c == ('true',):
        return Arr((tuple(fac),), ix(p))
    w, s = guard_axis(fac, c)
    return Arr(((w,),), ix(psubst(p, s)))


def mask_index(A, M):
    if M.ndim > A.ndim:
        raise Refused('mask')
    M = freshen(M)
    A = freshen(A)
    subs = []
    facs = []
    for i in range(M.ndim):
        if fsize(A.axes[i]) != fsize(M.axes[i]):
            raise Refused('mask shape')
        facs.append(refine(A.axes[i], M.axes[i], subs))
    ea, em = A.elem, M.elem
    for s in subs:
        ea, em = esubst(ea, s), esubst(em, s)
    fl = [v for f in facs for v in f]
    c = as_cond(em)
    if c == ('true',):
        return Arr((tuple(fl),) + A.axes[M.ndim:], ea)
    w, s = guard_axis(fl, c)
    return Arr(((w,),) + A.axes[M.ndim:], esubst(ea, s))


def is_mask(A):
    def b(e):
        return e[0] == 'ind' or (e[0] == 'n' and False)
    return isinstance(A, Arr) and A.ndim >= 1 and A.elem[0] == 'ind' or (isinstance(A, Arr) and A.ndim >= 1 and A.elem[0] == '*' and all(x[0] == 'ind' for x in A.elem[1:]))


class Sl(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


ELL = ('...',)
NEW = ('newaxis',)


def getitem(A, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    if len(idx) == 1 and is_mask(idx[0]):
        return mask_index(A, idx[0])
    A = freshen(A)
    idx = list(idx)
    if any(i is ELL for i in idx):
        k = [i for i, x in enumerate(idx) if x is ELL][0]
        used = sum(1 for x in idx if x is not ELL and x is not NEW and x is not None)
        idx[k:k + 1] = [Sl(None, None, None)] * (A.ndim - used)
    axes = []
    adv = []
    pos = None
    subs = {}
    k = 0
    for x in idx:
        if x is NEW or x is None:
            axes.append(())
            continue
        if k >= A.ndim:
            raise Refused('too many indices')
        fac = A.axes[k]
        n = fsize(fac)
        k += 1
        if isinstance(x, Sl):
            st = 1 if x.c is None else to_int(x.c)
            if st == -1 and x.a is None and x.b is None:
                for v in fac:
                    subs[v] = psub(psub(SIZES[v], P1), pv(v))
                axes.append(fac)
                continue
            lo = () if x.a is None else to_poly(x.a)
            hi = n if x.b is None else to_poly(x.b)
            if st != 1:
                raise Und('slice step')
            if psign(lo) == -1:
                lo = padd(lo, n)
            if psign(hi) == -1:
                hi = padd(hi, n)
            if psign(psub(hi, n)) == 1:
                hi = n
            if lo == () and hi == n:
                axes.append(fac)
                continue
            m = psub(hi, lo)
            if psign(m) is None or psign(m) <= 0:
                raise Und('slice bounds')
            f = newvar(m)
            subs.update(digits(padd(lo, lin(f)), fac))
            axes.append(f)
            continue
        if isinstance(x, (list, tuple)):
            x = literal(x)
        if isinstance(x, (int, Fraction)):
            x = scp(pc(x))
        if isinstance(x, Arr):
            if is_mask(x):
                x = flatnonzero(x)
            if x.ndim == 0 and not adv:
                p = atom_expr(x.elem, n)
                c = pconst(p)
                if c is not None and c < 0:
                    p = padd(p, n)
                subs.update(digits(p, fac))
                continue
            if pos is None:
                pos = len(axes)
            adv.append((fac, n, x))
            continue
        raise Und('index %r' % (x,))
    axes += list(A.axes[k:])
    if adv:
        bx, es = broadcast([x for f, n, x in adv])
        for (fac, n, x), e in zip(adv, es):
            p = atom_expr(e, n)
            c = pconst(p)
            if c is not None and c < 0:
                p = padd(p, n)
            subs.update(digits(p, fac))
        axes[pos:pos] = list(bx)
    return Arr(axes, esubst(A.elem, subs))


def literal(xs):
    """Array of a literal sequence."""
    xs = [literal(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if not xs:
        raise Und('empty literal')
    xs = [x if isinstance(x, Arr) else scp(pc(x)) if isinstance(x, (int, Fraction)) and not isinstance(x, bool) else x for x in xs]
    if not all(isinstance(x, Arr) for x in xs):
        raise Und('literal of non-arrays')
    axes, es = broadcast(xs)
    f = newvar(pc(len(xs)))
    if not f:
        return Arr((f,) + axes, es[0])
    w = f[0]
    return Arr((f,) + axes, add(*[mul(ind(('eq', ix(pv(w)), num(i))), e) for i, e in enumerate(es)]))


def to_list(A):
    """Literal-length 1-d array -> list of scalars."""
    if isinstance(A, (list, tuple)):
        return list(A)
    if isinstance(A, Arr):
        if A.ndim == 0:
            return [A]
        n = pconst(fsize(A.axes[0]))
        if n is None:
            raise Und('length not literal')
        return [Arr(A.axes[1:], sub_axis(A, 0, pc(i))) for i in range(int(n))]
    raise Und('not a sequence')


def concatenate(As, axis):
    nd = As[0].ndim
    if any(A.ndim != nd for A in As):
        raise Refused('concatenate')
    if not -nd <= axis < nd:
        raise Refused('concatenate axis')
    axis = axis % nd
    for A in As[1:]:
        for k in range(nd):
            if k != axis and fsize(A.axes[k]) != fsize(As[0].axes[k]):
                raise Refused('concatenate')
    if len(As) == 1:
        return As[0]
    tot = padd(*[fsize(A.axes[axis]) for A in As])
    f = newvar(tot)
    w = lin(f)
    off = ()
    axes = None
    out = None
    for A in As:
        n = fsize(A.axes[axis])
        A = freshen(A)
        e = esubst(A.elem, digits(psub(w, off), A.axes[axis]))
        c = ind(('and', ('ge', ix(w), ix(off)), ('lt', ix(w), ix(padd(off, n)))))
        B = Arr(A.axes[:axis] + ((),) + A.axes[axis + 1:], mul(c, e))
        out = B if out is None else bc(add, out, B)
        off = padd(off, n)
    return Arr(out.axes[:axis] + (f,) + out.axes[axis + 1:], out.elem)


def eye(n, m=None, k=0):
    m = n if m is None else m
    a, b = newvar(n), newvar(m)
    return Arr((a, b), ind(('eq', ix(padd(lin(a), pc(k))), ix(lin(b)))))


def full(dims, e):
    return Arr([newvar(d) for d in dims], e)


def diag(A, k):
    if A.ndim == 1:
        A = freshen(A)
        t = lin(A.axes[0])
        n = padd(fsize(A.axes[0]), pc(abs(k)))
        i, j = newvar(n), newvar(n)
        e = mul(A.elem, ind(('eq', ix(lin(i)), ix(padd(t, pc(max(-k, 0)))))), ind(('eq', ix(lin(j)), ix(padd(t, pc(max(k, 0)))))))
        return Arr((i, j), ssum(A.axes[0], e))
    if A.ndim != 2:
        raise Refused('diag')
    n0, n1 = fsize(A.axes[0]), fsize(A.axes[1])
    r, c = pc(max(-k, 0)), pc(max(k, 0))
    a, b = psub(n0, r), psub(n1, c)
    s = psign(psub(a, b)) if a != b else 0
    if s is None:
        raise Und('diag of %s x %s' % (pshow(n0), pshow(n1)))
    n = a if s <= 0 else b
    if psign(n) != 1:
        raise Und('empty diagonal')
    f = newvar(n)
    s = digits(padd(lin(f), r), A.axes[0])
    s.update(digits(padd(lin(f), c), A.axes[1]))
    return Arr((f,), esubst(A.elem, s))


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = freshen(a), freshen(b)

    def split(A, k):
        k = k % A.ndim
        f = A.axes[k]
        if fsize(f) != pc(3):
            raise Und('cross of length %s' % pshow(fsize(f)))
        j = fresh(pc(3))
        return Arr([x for i, x in enumerate(A.axes) if i != k], esubst(A.elem, digits(pv(j), f))), j
    a2, ja = split(a, axisa)
    b2, jb = split(b, axisb)
    # a2, b2 have the contracted index free
    axes, es = broadcast_keep([a2, b2])
    o = fresh(pc(3))
    e = mul(('f', 'eps', ix(pv(o)), ix(pv(ja)), ix(pv(jb))), es[0], es[1])
    e = ('sum', ja, ('sum', jb, e))
    k = axisc % (len(axes) + 1)
    axes = list(axes)
    axes.insert(k, (o,))
    return Arr(axes, e)


def broadcast_keep(As):
    return broadcast(As)


# ------------------------------------------------------------------ sparse
def to_sp(v):
    if isinstance(v, Sp):
        return v
    if isinstance(v, Arr):
        if v.ndim == 0:
            v = Arr(((), ()), v.elem)
        if v.ndim == 1:
            v = Arr(((),) + v.axes, v.elem)
        if v.ndim == 2:
            v = freshen(v)
            r, c = v.axes
            return Sp([(r + c, ('true',), ix(lin(r)), ix(lin(c)), v.elem)], (fsize(r), fsize(c)))
    raise Und('not a matrix')


def sp_fresh(t):
    vs, g, r, c, v = t
    s = {}
    nv = []
    for x in vs:
        w = fresh(SIZES[x])
        s[x] = pv(w)
        nv.append(w)
    # sizes may not depend on variables
    go = lambda e: esubst(e, s)
    return (tuple(nv), X.csubst(g, go), go(r), go(c), go(v))


def cand(*cs):
    cs = [c for c in cs if c != ('true',)]
    if not cs:
        return ('true',)
    if len(cs) == 1:
        return cs[0]
    return ('and',) + tuple(cs)


def sp_terms(S):
    if S.order is None:
        return S.terms
    base, D = S.order
    # entry k of the data belongs to the k-th entry of base in column order
    D = freshen(D)
    k = lin(D.axes[0])
    n = D.size()
    return [(D.axes[0], ('true',), ix(pv(('cr', base.id, 0, ('P', k)))), ix(pv(('cr', base.id, 1, ('P', k)))), D.elem)]


def sp_T(S):
    return Sp([(vs, g, c, r, v) for vs, g, r, c, v in sp_terms(S)], (S.shape[1], S.shape[0]))


def sp_map(S, f):
    return Sp([(vs, g, r, c, f(v)) for vs, g, r, c, v in sp_terms(S)], S.shape)


def sp_add(A, B):
    if A.shape != B.shape:
        raise Refused('shapes of sparse sum')
    return Sp(list(sp_terms(A)) + list(sp_terms(B)), A.shape)


def sp_dot(A, B):
    if A.shape[1] != B.shape[0]:
        raise Refused('sparse product')
    out = []
    for t1 in sp_terms(A):
        for t2 in sp_terms(B):
            v1, g1, r1, c1, x1 = sp_fresh(t1)
            v2, g2, r2, c2, x2 = sp_fresh(t2)
            out.append((v1 + v2, cand(g1, g2, ('eq', c1, r2)), r1, c2, mul(x1, x2)))
    return Sp(out, (A.shape[0], B.shape[1]))


def sp_kron(A, B):
    out = []
    for t1 in sp_terms(A):
        for t2 in sp_terms(B):
            v1, g1, r1, c1, x1 = sp_fresh(t1)
            v2, g2, r2, c2, x2 = sp_fresh(t2)
            out.append((v1 + v2, cand(g1, g2), add(mul(r1, ix(B.shape[0])), r2), add(mul(c1, ix(B.shape[1])), c2), mul(x1, x2)))
    return Sp(out, (pmul(A.shape[0], B.shape[0]), pmul(A.shape[1], B.shape[1])))


def sp_coo(data, I, J, shape):
    if data.ndim == 0:
        data = Arr(((),), data.elem)
    I, J = ravel(I), ravel(J)
    if data.ndim != 1:
        raise Refused('coo data must be 1-d')
    if data.size() != I.size() or I.size() != J.size():
        if all(psign(psub(x, y)) is None and x != y for x, y in ((data.size(), I.size()),)) :
            raise Und('lengths of data and index arrays')
        raise Refused('lengths of data and index arrays differ')
    axes, (ed, ei, ej) = broadcast([data, I, J])
    return Sp([(axes[0], ('true',), ei, ej, ed)], shape)


# ------------------------------------------------------------------ models: index atoms of this domain
class AModel(Model):
    def __init__(self, rnd, mode=0, sizes=None):
        Model.__init__(self, rnd, mode)
        self.selc = {}
        self.argc = {}
        self.spc = {}
        self.bysize = {}
        self.sizes_fixed = sizes or {}
        self.size.update(self.sizes_fixed)

    def atom(self, a):
        if isinstance(a, str):
            return Model.atom(self, a)
        k = a[0]
        if k == 'fdiv':
            return self.poly(a[1][1]) // self.poly(a[2][1])
        if k == 'cnt':
            return len(self.sel(a[1]))
        if k == 'sel':
            l = self.sel(a[1])
            i = int(self.poly(a[3][1]))
            return l[i][a[2]] if 0 <= i < len(l) else 0
        if k == 'ie':
            v = self.ev(a[1][1])
            return int(round(v))
        if k in ('am', 'as'):
            i = a[2] if k == 'am' else a[1]
            qs = [int(self.poly(x[1])) for x in (a[3:-1] if k == 'am' else a[3:-1])]
            order = self.order(i, tuple(qs))
            if k == 'am':
                return order[-1] if 'max' in a[1] else order[0]
            j = int(self.poly(a[2][1]))
            return order[j] if 0 <= j < len(order) else 0
        if k == 'cr':
            l = self.csc(a[1])
            j = int(self.poly(a[3][1]))
            if not 0 <= j < len(l):
                raise Und('data longer than the number of entries')
            return l[j][a[2]]
        if k == 'cd':
            l = self.csc(a[1])
            j = int(self.poly(a[2][1]))
            if not 0 <= j < len(l):
                raise Und('data longer than the number of entries')
            return l[j][2]
        return Model.atom(self, a)

    def order(self, i, qs):
        if (i, qs) not in self.argc:
            nq, n, e = ARGS[i]
            old = dict(self.iv)
            for j, q in enumerate(qs):
                self.iv['q%d' % j] = q
            vals = []
            for r in range(int(self.poly(n))):
                self.iv['r0'] = r
                vals.append((self.ev(e), r))
            self.iv = old
            self.argc[(i, qs)] = [r for v, r in sorted(vals)]
        return self.argc[(i, qs)]

    def sel(self, gid):
        if gid not in self.selc:
            sizes, c = GUARD[gid]
            old = dict(self.iv)
            out = []
            for t in itertools.product(*[range(int(self.poly(s))) for s in sizes]):
                for j, q in enumerate(t):
                    self.iv['g%d' % j] = q
                if self.cond(c):
                    out.append(t)
            self.iv = old
            self.selc[gid] = out
        return self.selc[gid]

    def csc(self, spid):
        if spid not in self.spc:
            S = SPS[spid]
            d = self.entries(S)
            self.spc[spid] = [(r, c, v) for (c, r), v in sorted(((c, r), v) for (r, c), v in d.items())]
        return self.spc[spid]

    def entries(self, S):
        """{(row, col): value}"""
        d = {}
        for vs, g, r, c, v in sp_terms(S):
            old = dict(self.iv)
            for t in itertools.product(*[range(int(self.poly(SIZES[x]))) for x in vs]):
                for x, q in zip(vs, t):
                    self.iv[x] = q
                if g != ('true',) and not self.cond(g):
                    continue
                rr, cc = int(round(self.ev(r))), int(round(self.ev(c)))
                d[(rr, cc)] = d.get((rr, cc), 0.0) + self.ev(v)
            self.iv = old
        return d

    def ev(self, e):
        if e[0] == 'mat':
            kind, (name, nb, n), ixs = e[1], e[2], e[3]
            ii = [int(self.poly(p)) for p in ixs]
            nn = int(self.poly(n))
            key = ('M', name, tuple(ii[:nb]))
            if key not in self.vals:
                self.vals[key] = matinv([[self.entry((name,) + tuple(ii[:nb]) + (r, c)) for c in range(nn)] for r in range(nn)])
            inv, det = self.vals[key]
            if kind == 'inv':
                return inv[ii[nb]][ii[nb + 1]]
            if kind == 'det':
                return det
            if kind == 'logdet':
                return math.log(abs(det))
            if kind == 'sign':
                return float((det > 0) - (det < 0))
        return Model.ev(self, e)


def matinv(m):
    n = len(m)
    a = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(m)]
    det = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-9:
            raise ZeroDivisionError
        if p != c:
            a[p], a[c] = a[c], a[p]
            det = -det
        det *= a[c][c]
        q = a[c][c]
        a[c] = [x / q for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a], det


def spec_jacobian(V, name, shape):
    """Derivative of the value array V with respect to the array `name` of the given shape."""
    V = freshen(V)
    row = ix(linidx(V))
    ov = tuple(v for f in V.axes for v in f)
    out = []
    for b, n, idx, d in diff(V.elem, (name,)):
        col = ()
        for p, s in zip(idx, shape):
            col = padd(pmul(col, s), p)
        out.append((ov + tuple(b), ('true',), row, ix(col), d))
    tot = P1
    for s in shape:
        tot = pmul(tot, s)
    return Sp(out, (V.size(), tot))


def compare(A, B, assume=(), seed=1, want=5):
    """Entrywise identity of two matrices: (True, None) or (False, explanation)."""
    good = 0
    for t in range(60):
        m = AModel(random.Random(seed * 7919 + t), t)
        try:
            if not all(m.cond(c) for c in assume):
                continue
            da, db = m.entries(A), m.entries(B)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        good += 1
        for k in set(da) | set(db):
            x, y = da.get(k, 0.0), db.get(k, 0.0)
            if isinstance(x, complex) or isinstance(y, complex) or math.isnan(x) or math.isnan(y):
                continue
            if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
                return False, 'entry (%d, %d) is %.6g but the derivative is %.6g for sizes %s' % (
                    k[0], k[1], x, y, ', '.join('%s=%s' % kv for kv in sorted(m.size.items()) if isinstance(kv[0], str)))
        if good >= want:
            break
    if good < 2:
        raise Und('no usable model')
    return True, None


def compare_arrays(A, B, assume=(), seed=1):
    if A.ndim != B.ndim:
        return False, 'has %d dimensions instead of %d' % (A.ndim, B.ndim)
    for k in range(A.ndim):
        if fsize(A.axes[k]) != fsize(B.axes[k]):
            return False, 'axis %d has length %s instead of %s' % (k, pshow(fsize(A.axes[k])), pshow(fsize(B.axes[k])))
    A, B = freshen(A), freshen(B)
    sa = Sp([(tuple(v for f in A.axes for v in f), ('true',), ix(linidx(A)), ZERO, A.elem)], (A.size(), P1))
    sb = Sp([(tuple(v for f in B.axes for v in f), ('true',), ix(linidx(B)), ZERO, B.elem)], (B.size(), P1))
    ok, why = compare(sa, sb, assume, seed)
    return ok, (why or '').replace('the derivative is', 'it should be')
