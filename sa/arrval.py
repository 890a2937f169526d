"""Evaluation of value terms (as extracted by the path analysis) in the array domain."""
from .arr import *
from .terms import T, Term, is_c, cv, NONE, TRUE, FALSE, show as tshow

UFN1 = set('exp log sin cos tan arcsin arccos arctan sinh cosh tanh log2 log10 log1p expm1 exp2 floor ceil sign absolute rint trunc arcsinh arccosh arctanh'.split())
CMP = {'greater': 'gt', 'greater_equal': 'ge', 'less': 'lt', 'less_equal': 'le', 'equal': 'eq', 'not_equal': 'ne'}
NOOP = set('asarray array copy ascontiguousarray require astype nan_to_num positive conjugate view'.split())


class Opaque(Und):
    pass


def boole(e):
    """0/1 expression of truth of e."""
    return e if e[0] == 'ind' else ind(as_cond(e))


class Ev(object):
    def __init__(self, env, attrs=None):
        """env: term -> value (Arr, None, tuple, str, bool)."""
        self.env = dict(env)
        self.memo = {}

    def num(self, v):
        """As an array."""
        if isinstance(v, Arr):
            return v
        if isinstance(v, bool):
            return sc(ONE if v else ZERO)
        if isinstance(v, (int, float, Fraction)):
            return sc(num(v))
        if isinstance(v, (list, tuple)):
            return literal([self.num(x) for x in v])
        raise Und('not an array: %r' % (v,))

    def ev(self, t):
        if t in self.env:
            v = self.env[t]
            if isinstance(v, Exception):
                raise v
            return v
        if t in self.memo:
            v = self.memo[t]
            if isinstance(v, Exception):
                raise v
            return v
        try:
            v = self.ev1(t)
        except (Und, Refused) as e:
            self.memo[t] = e
            raise
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError) as e:
            e = Und('not representable: %s' % e)
            self.memo[t] = e
            raise e
        self.memo[t] = v
        return v

    def seq(self, t):
        """A tuple of values."""
        v = self.ev(t)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, Arr):
            return to_list(v)
        raise Und('not a sequence')

    def shapearg(self, t):
        v = self.ev(t)
        if isinstance(v, Arr) and v.ndim == 0:
            v = [v]
        elif isinstance(v, Arr):
            v = to_list(v)
        if isinstance(v, (int, Fraction)):
            v = [v]
        out = []
        for x in v:
            p = to_poly(x)
            out.append(-1 if pconst(p) == -1 else p)
        return out

    def const(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return sc(num(v))
        if v is Ellipsis:
            return ELL
        if isinstance(v, tuple):
            return tuple(self.const(x) for x in v)
        raise Und('constant %r' % (v,))

    def ev1(self, t):
        op, a = t.op, t.a
        if op == 'c':
            return self.const(a[1])
        if op in ('tup', 'list'):
            out = []
            for x in a:
                if x.op == 'star':
                    v = self.ev(x.a[1])
                    if not isinstance(v, (tuple, list)):
                        raise Und('star')
                    out.extend(v)
                else:
                    out.append(self.ev(x))
            return tuple(out) if op == 'tup' else out
        if op in ('tupof', 'listof'):
            v = self.ev(a[0])
            v = self.seqof(v)
            return tuple(v) if op == 'tupof' else list(v)
        if op == 'ext':
            n = a[0]
            if n == 'builtins.Ellipsis':
                return ELL
            if n.endswith('.newaxis'):
                return None
            if n.endswith('.pi'):
                return sc(num(math.pi))
            return ('ext', n)
        if op == 'shape':
            v = self.ev(a[0])
            if isinstance(v, Sp):
                return tuple(scp(p) for p in v.shape)
            return tuple(scp(p) for p in self.num(v).shape())
        if op == 'size':
            v = self.ev(a[0])
            if isinstance(v, Sp):
                return self.sp_data_size(v)
            return scp(self.num(v).size())
        if op == 'ndim':
            v = self.ev(a[0])
            if isinstance(v, Sp):
                return scp(pc(2))
            return scp(pc(self.num(v).ndim))
        if op == 'len':
            v = self.ev(a[0])
            if isinstance(v, (list, tuple)):
                return scp(pc(len(v)))
            if isinstance(v, Arr) and v.ndim:
                return scp(v.shape()[0])
            raise Und('len')
        if op == 'bin':
            return self.binop(a[0], self.ev(a[1]), self.ev(a[2]))
        if op == 'un':
            v = self.ev(a[1])
            if a[0] == 'USub':
                return sp_map(v, neg) if isinstance(v, Sp) else self.map(neg, v)
            if a[0] == 'Not' and isinstance(v, bool):
                return not v
            if a[0] == 'Invert':
                return self.map(lambda e: add(ONE, neg(boole(e))), v)
            raise Und('unary ' + a[0])
        if op == 'np':
            return self.npcall(a[0], dict(a[1]), t)
        if op == 'sp':
            return self.spcall(a[0], dict(a[1]))
        if op == 'spm':
            return self.spmeth(self.ev(a[0]), a[1], a[2])
        if op == 'item':
            return self.item(self.ev(a[0]), self.ev(a[1]))
        if op == 'slice':
            f = lambda x: None if x is NONE else self.ev(x)
            return Sl(f(a[0]), f(a[1]), f(a[2]))
        if op == 'attr':
            return self.attr(t)
        if op == 'upd':
            return self.upd(t)
        if op == 'range':
            if len(a) == 1:
                n = to_poly(self.ev(a[0]))
                f = newvar(n)
                return Arr((f,), ix(lin(f)))
            raise Und('range')
        if op == 'map':
            return self.mapterm(t)
        if op == 'elem':
            raise Opaque('element of %s' % tshow(a[0])[:60])
        if op == 'ecall':
            f = a[0].a[0] if a[0].op == 'ext' else None
            args = [self.ev(x) for x in a[1]]
            if f in ('scipy.special.gamma', 'scipy.special.psi', 'scipy.special.digamma', 'scipy.special.gammaln') and len(args) == 1:
                nm = {'psi': 'digamma'}.get(f.split('.')[-1], f.split('.')[-1])
                return self.map(lambda e: ('f', nm, e), args[0])
            if f == 'scipy.special.polygamma' and len(args) == 2:
                n = to_int(args[0])
                if n == 0:
                    return self.map(lambda e: ('f', 'digamma', e), args[1])
            raise Und('call of %s' % f)
        if op in ('eq', 'lt', 'le', 'is', 'in', 'not'):
            v = self.fact(t)
            if isinstance(v, bool):
                return v
            if isinstance(v, tuple):
                return sc(ind(v))
            raise Und('condition')
        if op == 'val' and a[0].op == 'new':
            return self.newval(a[0])
        raise Opaque('%s' % tshow(t)[:80])

    def newval(self, t):
        raise Opaque('value of a node built here')

    def seqof(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        return to_list(v)

    def map(self, f, v):
        v = self.num(v)
        return Arr(v.axes, f(v.elem))

    def sp_data_size(self, S):
        if S.order is not None:
            return scp(S.order[1].size())
        if len(S.terms) == 1:
            return scp(pmul(*[SIZES[x] for x in S.terms[0][0]]) if S.terms[0][0] else P1)
        raise Und('size of a sparse matrix')

    def sp_data(self, S):
        n = to_poly(self.sp_data_size(S))
        f = newvar(n)
        return Arr((f,), ix(pv(('cd', S.id, ('P', lin(f))))))

    def attr(self, t):
        o, name = t.a[0], t.a[1]
        try:
            v = self.ev(o)
        except Opaque:
            raise Opaque(tshow(t)[:80])
        if isinstance(v, Arr):
            if name == 'strides':
                sh = v.shape()
                out = []
                p = pc(8)
                for s in reversed(sh):
                    # numpy gives an axis of length one any stride; x[:, None] has stride 0 there
                    out.append(scp(pc(0) if s == P1 and v.elem[0] == 'x' and len(sh) > 1 else p))
                    p = pmul(p, s)
                return tuple(reversed(out))
            if name == 'T':
                return perm(v, range(v.ndim)[::-1])
            if name == 'itemsize':
                return scp(pc(8))
            if name == 'dtype':
                return ('ext', 'dtype')
        if isinstance(v, Sp):
            if name == 'data':
                return self.sp_data(v)
            if name == 'T':
                return sp_T(v)
            if name == 'nnz':
                return self.sp_data_size(v)
        raise Opaque(tshow(t)[:80])

    def upd(self, t):
        o, key, val = t.a
        base = self.ev(o)
        if isinstance(base, Sp):
            if key.op == '.data':
                D = self.num(self.ev(val))
                return Sp(base.terms, base.shape, order=(base, D))
            if key.op == 'through' and len(key.a) == 2:
                # write through the data: masks of non-finite entries never hold on finite points
                M = self.ev(key.a[1])
                if isinstance(M, Arr) and M.elem == ZERO:
                    return base
                if key.a[1].op == 'fill' or key.a[1].op == 'c' and False:
                    pass
            if key.op in ('through', 'via'):
                tgt = key.a[0]
                v = self.ev(val)
                if tgt.op == 'attr' and tgt.a[1] == 'data' and len(key.a) == 1 and isinstance(v, Arr):
                    return Sp(base.terms, base.shape, order=(base, v))
            raise Und('update of a sparse matrix (%s)' % key.op)
        if not isinstance(base, Arr):
            raise Und('update of %r' % (base,))
        if key.op == 'fill':
            return Arr(base.axes, self.num(self.ev(val)).elem)
        if key.op == 'through':
            if len(key.a) == 2:
                M = self.ev(key.a[1])
                if isinstance(M, Arr) and M.elem == ZERO:
                    return base
            raise Und('write through a view')
        k = self.ev(key)
        if is_mask(k) or (isinstance(k, Arr) and k.ndim >= 1 and k.elem == ZERO):
            if k.elem == ZERO:
                return base
            v = self.num(self.ev(val))
            if v.ndim == 0 and k.ndim == base.ndim:
                return bc(lambda b, m, x: add(mul(add(ONE, neg(m)), b), mul(m, x)), base, k, v)
            raise Und('masked write')
        ks = k if isinstance(k, tuple) else (k,)
        # constant positions and full slices
        v = self.num(self.ev(val))
        base = freshen(base)
        conds = []
        rest = []
        if any(x is ELL for x in ks):
            raise Und('ellipsis write')
        if len(ks) > base.ndim:
            raise Refused('too many indices')
        for i, f in enumerate(base.axes):
            x = ks[i] if i < len(ks) else Sl(None, None, None)
            if isinstance(x, Sl):
                if x.a is None and x.b is None and x.c is None:
                    rest.append(f)
                    continue
                raise Und('slice write')
            if isinstance(x, Arr) and x.ndim == 0 or isinstance(x, int):
                p = to_poly(x)
                if pconst(p) is not None and pconst(p) < 0:
                    p = padd(p, fsize(f))
                conds.append(ind(('eq', ix(lin(f)), ix(p))))
                continue
            raise Und('fancy write')
        R = Arr(rest, base.elem)
        axes, (eb, ev) = broadcast([R, v])
        if len(axes) != len(rest):
            raise Und('write shape')
        c = mul(*conds) if conds else ONE
        # axes of R kept their identity only if no refinement took place
        if tuple(axes) != tuple(rest):
            raise Und('write shape')
        return Arr(base.axes, add(mul(add(ONE, neg(c)), eb), mul(c, ev)))

    def mapterm(self, t):
        it, el, body, tot = t.a
        v = self.ev(it)
        if tot is not TRUE:
            return self.filtered(v, el, body, tot)
        if isinstance(v, (tuple, list)):
            out = []
            for x in v:
                e2 = Ev(self.env)
                e2.__class__ = self.__class__
                e2.__dict__.update({k: w for k, w in self.__dict__.items() if k not in ('env', 'memo')})
                e2.env[el] = x
                out.append(e2.ev(body))
            return out
        if isinstance(v, Arr) and v.ndim >= 1:
            b = fresh(v.shape()[0]) if v.axes[0] else None
            e2 = Ev(self.env)
            e2.__class__ = self.__class__
            e2.__dict__.update({k: w for k, w in self.__dict__.items() if k not in ('env', 'memo')})
            if b is None:
                e2.env[el] = Arr(v.axes[1:], v.elem)
                return [e2.ev(body)]
            e2.env[el] = Arr(v.axes[1:], sub_axis(v, 0, pv(b)))
            return Map(b, e2.ev(body))
        raise Und('comprehension')

    def filtered(self, v, el, body, tot):
        if isinstance(v, Arr):
            if v.ndim != 1 or pconst(v.size()) is None or pconst(v.size()) > 12:
                raise Und('filtered comprehension over %s' % (v.axes,))
            v = to_list(v)
        if not isinstance(v, (tuple, list)) or tot.op != 'conds':
            raise Und('filtered comprehension')
        out = []
        for x in v:
            e2 = Ev(self.env)
            e2.__class__ = self.__class__
            e2.__dict__.update({k: w for k, w in self.__dict__.items() if k not in ('env', 'memo')})
            e2.env[el] = x
            took = False
            for alt in tot.a[0]:
                rs = []
                for f, want in alt:
                    r = e2.fact(f)
                    if not isinstance(r, bool):
                        raise Und('filtered comprehension: %s' % tshow(f)[:60])
                    rs.append(r == want)
                took = took or all(rs)
            if took:
                out.append(e2.ev(body))
        return out

    # -- operators
    def binop(self, op, x, y):
        if isinstance(x, Sp) or isinstance(y, Sp):
            if op == 'Mult' or op == 'MatMult':
                if isinstance(x, Sp) and isinstance(y, Arr) and y.ndim == 0:
                    return sp_map(x, lambda e: mul(e, y.elem))
                if isinstance(y, Sp) and isinstance(x, Arr) and x.ndim == 0:
                    return sp_map(y, lambda e: mul(e, x.elem))
                return sp_dot(to_sp(x), to_sp(y))
            if op == 'Div' and isinstance(y, Arr) and y.ndim == 0:
                return sp_map(x, lambda e: div(e, y.elem))
            if op in ('Add', 'Sub'):
                return sp_add(to_sp(x), to_sp(y) if op == 'Add' else sp_map(to_sp(y), neg))
            raise Und('sparse ' + op)
        if op == 'Add' and isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            return type(x)(list(x) + list(y)) if isinstance(x, list) else tuple(x) + tuple(y)
        if op == 'Mult' and isinstance(x, (tuple, list)) and isinstance(y, Arr) and y.ndim == 0:
            return type(x)(list(x) * to_int(y))
        if op == 'Mult' and isinstance(y, (tuple, list)) and isinstance(x, Arr) and x.ndim == 0:
            return type(y)(list(y) * to_int(x))
        x, y = self.num(x), self.num(y)
        f = {'Add': add, 'Sub': lambda p, q: add(p, neg(q)), 'Mult': mul, 'Div': div, 'Pow': power}.get(op)
        if op == 'Div' and (y.elem == num(0) or y.elem == ix(())):
            raise Refused('division by zero')
        if f:
            return bc(f, x, y)
        if op == 'BitAnd':
            return bc(lambda p, q: mul(boole(p), boole(q)), x, y)
        if op == 'BitOr':
            return bc(lambda p, q: add(boole(p), boole(q), neg(mul(boole(p), boole(q)))), x, y)
        if op == 'BitXor':
            return bc(lambda p, q: add(boole(p), boole(q), mul(num(-2), boole(p), boole(q))), x, y)
        if op == 'FloorDiv' and x.ndim == 0 and y.ndim == 0:
            p, q = to_poly(x), to_poly(y)
            d = idiv(p, q)
            return scp(d if d is not None else fdiv(p, q))
        if op == 'FloorDiv':
            return bc(lambda p, q: ix(fdiv(atom_expr(p, P1), atom_expr(q, P1))) if p[0] in ('ix', 'n') and q[0] in ('ix', 'n') else ('f', 'floordiv', p, q), x, y)
        if op == 'Mod':
            return bc(lambda p, q: ix(X.pmod(atom_expr(p, P1), atom_expr(q, P1))) if p[0] in ('ix', 'n') and q[0] in ('ix', 'n') else ('f', 'mod', p, q), x, y)
        if op == 'MatMult':
            return matmul(x, y)
        raise Und('operator ' + op)

    def item(self, o, k):
        if isinstance(o, (tuple, list)):
            if isinstance(k, Sl):
                f = lambda z: None if z is None else to_int(z)
                return o[slice(f(k.a), f(k.b), f(k.c))]
            i = to_int(k)
            if not -len(o) <= i < len(o):
                raise Refused('index out of range')
            return o[i]
        if isinstance(o, Arr):
            return getitem(o, self.fixidx(k))
        if isinstance(o, Sp) and isinstance(k, tuple) and len(k) == 2:
            r, c = k
            full_r = isinstance(r, Sl) and r.a is None and r.b is None and r.c is None
            full_c = isinstance(c, Sl) and c.a is None and c.b is None and c.c is None
            if full_r and isinstance(c, Arr) and c.ndim == 1:
                return self.spcols(o, c)
            if full_c and isinstance(r, Arr) and r.ndim == 1:
                return sp_T(self.spcols(sp_T(o), r))
        if isinstance(o, Sp) and isinstance(k, Arr) and k.ndim == 1:
            return sp_T(self.spcols(sp_T(o), k))
        raise Und('item of %r' % (o,))

    def fixidx(self, k):
        if isinstance(k, list):
            return literal(k)
        if isinstance(k, tuple) and k and k is not ELL and all(x is None or isinstance(x, (Sl, Arr, list, int, tuple)) for x in k):
            return tuple(literal(x) if isinstance(x, list) else x for x in k)
        return k

    def spcols(self, S, c):
        out = []
        for t in sp_terms(S):
            vs, g, r, cc, v = sp_fresh(t)
            A = freshen(c)
            out.append((vs + A.axes[0], cand(g, ('eq', cc, A.elem)), r, ix(lin(A.axes[0])), v))
        return Sp(out, (S.shape[0], c.size()))

    # -- scipy.sparse
    def spcall(self, name, b):
        if name in ('csc_matrix', 'csr_matrix', 'coo_matrix', 'lil_matrix'):
            a1 = b['arg1']
            v = self.ev(a1)
            shp = self.ev(b['shape']) if 'shape' in b else None
            shp = tuple(to_poly(x) for x in shp) if shp is not None else None
            if isinstance(v, Sp):
                return v
            if isinstance(v, Arr):
                return to_sp(v)
            if isinstance(v, tuple) and len(v) == 2:
                if isinstance(v[0], Arr) and v[0].ndim == 0 and isinstance(v[1], Arr) and v[1].ndim == 0:
                    return Sp([], (to_poly(v[0]), to_poly(v[1])))
                ij = v[1]
                if isinstance(ij, Arr):
                    ij = to_list(ij)
                if shp is None:
                    raise Und('no shape given')
                return sp_coo(self.num(v[0]), self.num(ij[0]), self.num(ij[1]), shp)
            raise Und(name)
        if name in ('eye', 'identity'):
            n = to_poly(self.ev(b['m'] if 'm' in b else b['n']))
            m = to_poly(self.ev(b['n'])) if name == 'eye' and 'n' in b and b['n'] is not NONE else n
            k = to_int(self.ev(b['k'])) if 'k' in b else 0
            if n == m and k == 0:
                f = newvar(n)
                return Sp([(f, ('true',), ix(lin(f)), ix(lin(f)), ONE)], (n, m))
            return to_sp(eye(n, m, k))
        if name == 'diags':
            d = self.ev(b['diagonals'])
            off = self.ev(b['offsets']) if 'offsets' in b else sc(ZERO)
            if isinstance(d, (list, tuple)):
                if len(d) != 1:
                    raise Und('several diagonals')
                d = d[0]
            if isinstance(off, (list, tuple)):
                off = off[0]
            k = to_int(off)
            d = self.num(d)
            if k != 0 or d.ndim != 1:
                raise Und('diags offset')
            d = freshen(d)
            n = d.size()
            if 'shape' in b and b['shape'] is not NONE:
                s = self.ev(b['shape'])
                if tuple(to_poly(x) for x in s) != (n, n):
                    raise Und('diags shape')
            l = ix(lin(d.axes[0]))
            return Sp([(d.axes[0], ('true',), l, l, d.elem)], (n, n))
        if name == 'spdiags':
            d = self.num(self.ev(b['data']))
            k = to_int(self.num(self.ev(b['diags']))) if not isinstance(self.ev(b['diags']), (list, tuple)) else to_int(self.ev(b['diags'])[0])
            m, n = to_poly(self.ev(b['m'])), to_poly(self.ev(b['n']))
            d = ravel(d)
            if k != 0 or m != n or d.size() != n:
                raise Und('spdiags')
            d = freshen(d)
            l = ix(lin(d.axes[0]))
            return Sp([(d.axes[0], ('true',), l, l, d.elem)], (n, n))
        if name == 'kron':
            return sp_kron(to_sp(self.ev(b['A'])), to_sp(self.ev(b['B'])))
        if name == 'block_diag':
            m = self.ev(b['mats'])
            if isinstance(m, Arr) and m.ndim == 3:
                if not m.axes[0]:
                    return to_sp(Arr(m.axes[1:], m.elem))
                w = fresh(m.shape()[0])
                m = Map(w, Arr(m.axes[1:], sub_axis(m, 0, pv(w))))
            if isinstance(m, Map):
                if isinstance(m.body, Arr):
                    B = to_sp(m.body)
                else:
                    B = m.body
                out = []
                for t in sp_terms(B):
                    vs, g, r, c, v = t
                    w = fresh(SIZES[m.var])
                    s = {m.var: pv(w)}
                    go = lambda e: esubst(e, s)
                    out.append(((w,) + tuple(vs), X.csubst(g, go), add(mul(ix(pv(w)), ix(B.shape[0])), go(r)),
                                add(mul(ix(pv(w)), ix(B.shape[1])), go(c)), go(v)))
                n = SIZES[m.var]
                return Sp(out, (pmul(n, B.shape[0]), pmul(n, B.shape[1])))
            if isinstance(m, list):
                out, ro, co = [], (), ()
                for x in m:
                    B = to_sp(x)
                    out += [(vs, g, add(r, ix(ro)), add(c, ix(co)), v) for vs, g, r, c, v in sp_terms(B)]
                    ro, co = padd(ro, B.shape[0]), padd(co, B.shape[1])
                return Sp(out, (ro, co))
            raise Und('block_diag')
        if name in ('vstack', 'hstack'):
            m = self.ev(b['blocks'])
            if not isinstance(m, (list, tuple)):
                raise Und(name)
            out, o = [], ()
            other = None
            for x in m:
                B = to_sp(x)
                if name == 'vstack':
                    out += [(vs, g, add(r, ix(o)), c, v) for vs, g, r, c, v in sp_terms(B)]
                    o = padd(o, B.shape[0])
                    other = B.shape[1]
                else:
                    out += [(vs, g, r, add(c, ix(o)), v) for vs, g, r, c, v in sp_terms(B)]
                    o = padd(o, B.shape[1])
                    other = B.shape[0]
            return Sp(out, (o, other) if name == 'vstack' else (other, o))
        raise Und('scipy.sparse.' + name)

    def spmeth(self, o, name, args):
        if name in ('tocsc', 'tocsr', 'tocoo', 'tolil', 'asformat', 'copy'):
            return o
        if name in ('todense', 'toarray'):
            if isinstance(o, Arr):
                return o
            r, c = newvar(o.shape[0]), newvar(o.shape[1])
            es = []
            for t in sp_terms(o):
                vs, g, rr, cc, v = sp_fresh(t)
                e = mul(v, ind(('eq', rr, ix(lin(r)))), ind(('eq', cc, ix(lin(c)))), ind(g))
                es.append(ssum(vs, e))
            return Arr((r, c), add(*es) if es else ZERO)
        if name in ('dot', 'matmat', 'matvec') and len(args) == 1:
            y = self.ev(args[0])
            return self.spdot(o, y)
        if name == 'multiply' and len(args) == 1 and isinstance(o, Sp):
            y = self.ev(args[0])
            if isinstance(y, Arr) and y.ndim == 0:
                return sp_map(o, lambda e: mul(e, y.elem))
        if name in ('transpose',):
            return sp_T(o)
        raise Und('sparse method ' + name)

    def spdot(self, x, y):
        if isinstance(x, Sp) and isinstance(y, Arr):
            v = y.ndim == 1
            Y = to_sp(Arr(y.axes + ((),), y.elem)) if v else to_sp(y)
            D = self.spmeth(sp_dot(x, Y), 'todense', ())
            return Arr(D.axes[:1], D.elem) if v else D
        if isinstance(y, Sp) and isinstance(x, Arr):
            return self.spmeth(sp_dot(to_sp(x), y), 'todense', ())
        return sp_dot(to_sp(x), to_sp(y))

    # -- numpy
    def npcall(self, name, b, t):
        g = lambda k, d=None: (self.ev(b[k]) if k in b else d)
        if b.get('out') is not None and b['out'] is not NONE:
            raise Und('out=')
        if name in UFN1:
            v = g('x') if 'x' in b else self.ev(list(b.values())[0])
            if isinstance(v, Sp):
                raise Und('ufunc of sparse')
            return self.map(lambda e: fn(name, e), v)
        if name in ('negative', 'reciprocal', 'square', 'sqrt'):
            v = g('x')
            if isinstance(v, Sp) and name == 'negative':
                return sp_map(v, neg)
            return self.map(lambda e: fn(name, e), v)
        if name in CMP:
            return bc(lambda p, q: ind((CMP[name], p, q)), self.num(g('x1')), self.num(g('x2')))
        if name in ('add', 'subtract', 'multiply', 'divide', 'power', 'mod', 'floor_divide', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'true_divide', 'float_power', 'remainder'):
            o = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow', 'float_power': 'Pow', 'mod': 'Mod',
                 'remainder': 'Mod', 'floor_divide': 'FloorDiv', 'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr', 'bitwise_xor': 'BitXor'}[name]
            x, y = g('x1'), g('x2')
            if isinstance(x, (tuple, list)):
                x = self.num(x)
            if isinstance(y, (tuple, list)):
                y = self.num(y)
            return self.binop(o, x, y)
        if name in ('logical_and', 'logical_or', 'logical_xor'):
            return self.binop({'logical_and': 'BitAnd', 'logical_or': 'BitOr', 'logical_xor': 'BitXor'}[name], self.num(g('x1')), self.num(g('x2')))
        if name == 'logical_not':
            return self.map(lambda e: add(ONE, neg(boole(e))), g('x'))
        if name in ('maximum', 'minimum', 'fmax', 'fmin', 'arctan2'):
            nm = {'fmax': 'maximum', 'fmin': 'minimum'}.get(name, name)
            return bc(lambda p, q: ('f', nm, p, q), self.num(g('x1')), self.num(g('x2')))
        if name in ('isnan', 'isinf', 'isneginf', 'isposinf'):
            return self.map(lambda e: ZERO, g('x'))
        if name == 'isfinite':
            return self.map(lambda e: ONE, g('x'))
        first = list(b.values())[0] if b else None
        if name in NOOP:
            v = self.ev(first)
            if isinstance(v, Sp):
                return v
            if isinstance(v, Map):
                return self.stackmap(v)
            A = self.num(v)
            nd = to_int(g('ndmin')) if 'ndmin' in b else 0
            if A.ndim < nd:
                A = Arr(((),) * (nd - A.ndim) + A.axes, A.elem)
            return A
        if name in ('round', 'around', 'rint'):
            v = self.num(self.ev(first))
            if v.elem[0] in ('ix', 'n') :
                return v
            if is_int(v.elem):
                return v
            return self.map(lambda e: ('f', 'rint', e), v)
        if name in ('shape',):
            return tuple(scp(p) for p in self.num(self.ev(first)).shape())
        if name == 'clip':
            lo, hi = g('a_min'), g('a_max')
            A = self.num(g('a'))
            if lo is not None:
                A = bc(lambda p, q: ('f', 'maximum', p, q), A, self.num(lo))
            if hi is not None:
                A = bc(lambda p, q: ('f', 'minimum', p, q), A, self.num(hi))
            return A
        if name == 'where' and 'y' in b:
            return bc(lambda c, p, q: add(mul(boole(c), p), mul(add(ONE, neg(boole(c))), q)), self.num(g('condition')), self.num(g('x')), self.num(g('y')))
        if name in ('reshape',):
            A = self.ev(b['a'])
            if b.get('order') is not None and self.ev(b['order']) not in ('C', 'A', None):
                return self.reshapeF(self.num(A), self.shapearg(b['newshape']))
            return reshape(self.num(A), self.shapearg(b['newshape']))
        if name == 'ravel':
            A = self.num(self.ev(first))
            if b.get('order') is not None and self.ev(b['order']) == 'F':
                return ravel(perm(A, range(A.ndim)[::-1]))
            return ravel(A)
        if name == 'transpose':
            A = self.ev(b['a'])
            if isinstance(A, Sp):
                return sp_T(A)
            A = self.num(A)
            ax = g('axes')
            if ax is None or ax == () or ax == (None,):
                return perm(A, range(A.ndim)[::-1])
            if isinstance(ax, (tuple, list)) and len(ax) == 1 and isinstance(ax[0], (tuple, list)):
                ax = ax[0]
            o = [to_int(x) % A.ndim for x in self.seqof(ax)]
            if sorted(o) != list(range(A.ndim)):
                raise Refused('axes')
            return perm(A, o)
        if name == 'rollaxis':
            A = self.num(g('a'))
            k = getaxis(g('axis'), A.ndim)
            st = to_int(g('start')) if 'start' in b else 0
            if not -A.ndim <= st <= A.ndim:
                raise Refused('start')
            if st < 0:
                st += A.ndim
            o = list(range(A.ndim))
            if k < st:
                st -= 1
            o.remove(k)
            o.insert(st, k)
            return perm(A, o)
        if name == 'moveaxis':
            A = self.num(g('a'))
            s, d = getaxis(g('source'), A.ndim), getaxis(g('destination'), A.ndim)
            if isinstance(s, tuple):
                raise Und('moveaxis')
            o = [i for i in range(A.ndim) if i != s]
            o.insert(d, s)
            return perm(A, o)
        if name == 'swapaxes':
            A = self.num(g('a'))
            i, j = getaxis(g('axis1'), A.ndim), getaxis(g('axis2'), A.ndim)
            o = list(range(A.ndim))
            o[i], o[j] = o[j], o[i]
            return perm(A, o)
        if name == 'squeeze':
            A = self.num(g('a'))
            k = getaxis(g('axis'), A.ndim)
            return Arr([f for i, f in enumerate(A.axes) if f or (k is not None and i != k)], A.elem)
        if name == 'expand_dims':
            A = self.num(g('a'))
            k = getaxis(g('axis'), A.ndim + 1)
            return Arr(A.axes[:k] + ((),) + A.axes[k:], A.elem)
        if name in ('atleast_1d', 'atleast_2d', 'atleast_3d'):
            v = self.ev(first)
            if isinstance(v, Sp):
                return v
            A = self.num(v)
            n = int(name[8])
            if n == 3 and A.ndim == 2:
                return Arr(A.axes + ((),), A.elem)
            if n == 3 and A.ndim == 1:
                return Arr(((),) + A.axes + ((),), A.elem)
            while A.ndim < n:
                A = Arr(((),) + A.axes, A.elem)
            return A
        if name in ('zeros', 'ones', 'empty', 'full'):
            d = self.shapearg(b['shape'])
            e = {'zeros': ZERO, 'ones': ONE, 'empty': ('o', 'uninit', ())}.get(name)
            if name == 'full':
                return bc(lambda p, q: q, full(d, ZERO), self.num(g('fill_value')))
            return full(d, e)
        if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            v = self.ev(first)
            if isinstance(v, Sp):
                raise Und('like of sparse')
            A = self.num(v)
            e = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': ('o', 'uninit', ())}.get(name)
            if name == 'full_like':
                e = self.num(g('fill_value')).elem
            return Arr(A.axes, e)
        if name in ('eye', 'identity'):
            n = to_poly(self.ev(first))
            m = to_poly(g('M')) if 'M' in b and g('M') is not None else None
            return eye(n, m, to_int(g('k')) if 'k' in b else 0)
        if name == 'arange':
            st = to_poly(g('start'))
            if 'stop' not in b or g('stop') is None:
                lo, hi = (), st
            else:
                lo, hi = st, to_poly(g('stop'))
            step = to_poly(g('step')) if 'step' in b and g('step') is not None else P1
            n = psub(hi, lo)
            if step != P1:
                n = idiv(n, step)
                if n is None:
                    raise Und('arange step')
            f = newvar(n)
            return Arr((f,), ix(padd(lo, pmul(lin(f), step))))
        if name in ('sum', 'nansum'):
            A = self.num(g('a'))
            R = asum(A, getaxis(g('axis'), A.ndim))
            return self.keep(R, A, b, g)
        if name == 'mean':
            A = self.num(g('a'))
            k = getaxis(g('axis'), A.ndim)
            R = asum(A, k)
            n = A.size() if k is None else (pmul(*[A.shape()[i] for i in k]) if isinstance(k, tuple) else A.shape()[k])
            R = Arr(R.axes, div(R.elem, ix(n)))
            return self.keep(R, A, b, g)
        if name in ('var', 'std'):
            A = self.num(g('a'))
            k = getaxis(g('axis'), A.ndim)
            if isinstance(k, tuple) or ('keepdims' in b and g('keepdims') is not False):
                raise Und(name)
            dd = to_poly(g('ddof')) if 'ddof' in b and g('ddof') is not None else ()
            n = A.size() if k is None else A.shape()[k]
            m = asum(A, k)
            m = Arr(m.axes, div(m.elem, ix(n)))
            if k is not None:
                m = Arr(m.axes[:k] + ((),) + m.axes[k:], m.elem)
            d = bc(lambda p, q: power(add(p, neg(q)), num(2)), A, m)
            R = asum(d, k)
            R = Arr(R.axes, div(R.elem, ix(psub(n, dd))))
            return R if name == 'var' else self.map(lambda e: fn('sqrt', e), R)
        if name in ('amax', 'amin', 'nanmax', 'nanmin', 'argmax', 'argmin', 'nanargmax', 'nanargmin'):
            v = self.ev(first)
            if isinstance(v, (tuple, list)):
                v = [self.num(x) for x in v]
                if all(x.ndim == 0 for x in v) and name in ('amin', 'amax'):
                    return self.lit_extremum(v, name)
                v = literal(v)
            A = self.num(v)
            if A.ndim == 1 and pconst(A.size()) is not None and name in ('amin', 'amax'):
                try:
                    return self.lit_extremum(to_list(A), name)
                except Und:
                    pass
            if A.elem[0] == 'ix' and name in ('amin', 'amax'):
                R = self.ix_extremum(A, getaxis(g('axis'), A.ndim), name)
                if R is not None:
                    return R
            kind = ('nan' if 'nan' in name else '') + ('max' if 'max' in name else 'min')
            R = extremum(A, getaxis(g('axis'), A.ndim), kind, 'arg' in name)
            return self.keep(R, A, b, g)
        if name in ('sort', 'argsort'):
            A = self.num(g('a'))
            k = getaxis(g('axis'), A.ndim) if 'axis' in b else A.ndim - 1
            R = sorting(A, k, name == 'argsort')
            return R
        if name == 'take_along_axis':
            A, Ix = self.num(g('arr')), self.num(g('indices'))
            k = getaxis(g('axis'), A.ndim)
            if k is None:
                A, k = ravel(A), 0
            A, Ix = freshen(A), freshen(Ix)
            if A.ndim != Ix.ndim:
                raise Refused('take_along_axis')
            subs = []
            axes = []
            for i in range(A.ndim):
                if i == k:
                    axes.append(Ix.axes[i])
                else:
                    if fsize(A.axes[i]) != fsize(Ix.axes[i]):
                        raise Und('take_along_axis')
                    axes.append(refine(A.axes[i], Ix.axes[i], subs))
            ea, ei = A.elem, Ix.elem
            for s in subs:
                ea, ei = esubst(ea, s), esubst(ei, s)
            return Arr(axes, esubst(ea, digits(atom_expr(ei, fsize(A.axes[k])), A.axes[k])))
        if name == 'take':
            A, Ix = self.num(g('a')), self.num(g('indices'))
            k = getaxis(g('axis'), A.ndim) if 'axis' in b else None
            if k is None:
                return getitem(ravel(A), (Ix,))
            return getitem(A, (Sl(None, None, None),) * k + (Ix,))
        if name == 'cumsum':
            A = self.num(g('a'))
            k = getaxis(g('axis'), A.ndim)
            if k is None:
                A, k = ravel(A), 0
            A = freshen(A)
            f = A.axes[k]
            of = tuple(fresh(SIZES[v]) for v in f)
            e = ssum(f, mul(ind(('le', ix(lin(f)), ix(lin(of)))), A.elem))
            return Arr(A.axes[:k] + (of,) + A.axes[k + 1:], e)
        if name in ('dot', 'matmul', 'inner', 'outer'):
            x, y = g('a'), g('b')
            if isinstance(x, Sp) or isinstance(y, Sp):
                return self.spdot(x, y)
            x, y = self.num(x), self.num(y)
            if name == 'outer':
                return dot(Arr(ravel(x).axes + ((),), x.elem), Arr(((),) + freshen(ravel(y)).axes, y.elem)) if False else self.outer(x, y)
            if name == 'inner':
                return dot(x, perm(y, list(range(y.ndim))[:-2] + [y.ndim - 1, y.ndim - 2]) if y.ndim >= 2 else y)
            return dot(x, y) if name == 'dot' else matmul(x, y)
        if name == 'kron':
            x, y = freshen(self.num(g('a'))), freshen(self.num(g('b')))
            if x.ndim != y.ndim:
                raise Und('kron')
            return Arr([p + q for p, q in zip(x.axes, y.axes)], mul(x.elem, y.elem))
        if name == 'einsum':
            ops = [self.num(self.ev(v)) for k, v in b.items() if k != 'subscripts']
            s = self.ev(b['subscripts'])
            if not isinstance(s, str):
                raise Und('einsum')
            return einsum(s, ops)
        if name == 'cross':
            f = lambda k, d: (None if g(k) is None else to_int(g(k))) if k in b else d
            return cross(self.num(g('a')), self.num(g('b')), f('axisa', -1), f('axisb', -1), f('axisc', -1), f('axis', None))
        if name == 'tile':
            A = freshen(self.num(g('A')))
            reps = g('reps')
            if isinstance(reps, Arr) and reps.ndim == 0:
                reps = [reps]
            reps = [to_poly(x) for x in self.seqof(reps)]
            d = max(A.ndim, len(reps))
            axes = ((),) * (d - A.ndim) + A.axes
            reps = [P1] * (d - len(reps)) + reps
            return Arr([newvar(r) + f for r, f in zip(reps, axes)], A.elem)
        if name == 'repeat':
            A = freshen(self.num(g('a')))
            r = g('repeats')
            k = getaxis(g('axis'), A.ndim) if 'axis' in b else None
            if k is None:
                A, k = ravel(A), 0
            if isinstance(r, (tuple, list)) and len(r) == 1:
                r = r[0]
            r = to_poly(r)
            return Arr(A.axes[:k] + (A.axes[k] + newvar(r),) + A.axes[k + 1:], A.elem)
        if name == 'roll':
            A = freshen(self.num(g('a')))
            s = g('shift')
            ax = g('axis') if 'axis' in b else None
            shp = A.axes
            if ax is None:
                R = self.roll1(ravel(A), 0, to_poly(s[0] if isinstance(s, (tuple, list)) and len(s) == 1 else s))
                return reshape(R, [fsize(f) for f in shp])
            ks = getaxis(ax, A.ndim)
            if not isinstance(ks, tuple):
                ks = (ks,)
            ss = list(s) if isinstance(s, (tuple, list)) else [s] * len(ks)
            if len(ss) == 1:
                ss = ss * len(ks)
            if len(ss) != len(ks):
                if len(ks) == 1:
                    ks = ks * len(ss)
                else:
                    raise Refused('roll')
            for k, x in zip(ks, ss):
                A = self.roll1(A, k, to_poly(x))
            return A
        if name == 'rot90':
            A = self.num(g('m'))
            k = to_int(g('k')) % 4 if 'k' in b else 1
            if 'axes' in b:
                raise Und('rot90 axes')
            if A.ndim < 2:
                raise Refused('rot90')
            sw = [1, 0] + list(range(2, A.ndim))
            if k == 0:
                return A
            if k == 2:
                return flipax(flipax(A, 0), 1)
            if k == 1:
                return perm(flipax(A, 1), sw)
            return flipax(perm(A, sw), 1)
        if name in ('flip', 'fliplr', 'flipud'):
            A = self.num(g('m'))
            k = {'fliplr': 1, 'flipud': 0}.get(name)
            if k is None:
                k = getaxis(g('axis'), A.ndim)
            if k is None:
                for i in range(A.ndim):
                    A = flipax(A, i)
                return A
            if isinstance(k, tuple):
                raise Und('flip')
            return flipax(A, k)
        if name in ('diag', 'diagflat'):
            A = self.num(g('v'))
            k = to_int(g('k')) if 'k' in b else 0
            return diag(ravel(A) if name == 'diagflat' else A, k)
        if name == 'diagonal':
            A = self.num(g('a'))
            if A.ndim != 2 or 'axis1' in b or 'axis2' in b:
                raise Und('diagonal')
            return diag(A, to_int(g('offset')) if 'offset' in b else 0)
        if name == 'trace':
            A = self.num(g('a'))
            if A.ndim != 2:
                raise Und('trace')
            return asum(diag(A, to_int(g('offset')) if 'offset' in b else 0), None)
        if name == 'flatnonzero':
            return flatnonzero(self.num(self.ev(first)))
        if name == 'nonzero':
            A = self.num(self.ev(first))
            if A.ndim == 1:
                return (flatnonzero(A),)
            raise Und('nonzero')
        if name == 'broadcast':
            return bc(lambda p, q: p, self.num(g('a')), self.num(g('b')))
        if name == 'broadcast_to':
            return bc(lambda p, q: q, full(self.shapearg(b['shape']), ZERO), self.num(g('array')))
        if name in ('concatenate', 'vstack', 'hstack', 'dstack', 'stack'):
            v = self.ev(first)
            if isinstance(v, Map):
                A = freshen_map(v)
                if name == 'dstack' and A[1].ndim == 2:
                    return Arr(A[1].axes + ((A[0],),), A[1].elem)
                if name == 'stack':
                    return self.stackmap(v)
                if name in ('vstack', 'concatenate') and A[1].ndim == 2:
                    return Arr(((A[0],) + A[1].axes[0],) + A[1].axes[1:], A[1].elem)
                if name in ('vstack',) and A[1].ndim == 1:
                    return Arr(((A[0],),) + A[1].axes, A[1].elem)
                if name in ('hstack', 'concatenate') and A[1].ndim == 1:
                    return Arr(((A[0],) + A[1].axes[0],), A[1].elem)
                raise Und(name)
            if not isinstance(v, (list, tuple)):
                raise Und(name)
            As = [self.num(x) for x in v]
            if name == 'vstack':
                As = [Arr(((),) * (2 - A.ndim) + A.axes, A.elem) if A.ndim < 2 else A for A in As]
                return concatenate(As, 0)
            if name == 'hstack':
                As = [Arr(((),), A.elem) if A.ndim == 0 else A for A in As]
                return concatenate(As, 0 if As[0].ndim == 1 else 1)
            if name == 'dstack':
                As = [Arr(((),) + A.axes + ((),), A.elem) if A.ndim == 1 else Arr(A.axes + ((),), A.elem) if A.ndim == 2 else A for A in As]
                return concatenate(As, 2)
            if name == 'stack':
                k = getaxis(g('axis'), As[0].ndim + 1) if 'axis' in b else 0
                return concatenate([Arr(A.axes[:k] + ((),) + A.axes[k:], A.elem) for A in As], k)
            ax = g('axis') if 'axis' in b else sc(ZERO)
            if ax is None:
                return concatenate([ravel(A) for A in As], 0)
            return concatenate(As, getaxis(ax, As[0].ndim))
        if name in ('tri', 'tril', 'triu'):
            if name == 'tri':
                n = to_poly(self.ev(first))
                m = to_poly(g('M')) if 'M' in b and g('M') is not None else n
                k = to_int(g('k')) if 'k' in b else 0
                r, c = newvar(n), newvar(m)
                return Arr((r, c), ind(('le', ix(lin(c)), ix(padd(lin(r), pc(k))))))
            A = self.num(g('m'))
            k = to_int(g('k')) if 'k' in b else 0
            r, c = A.axes[-2:]
            return Arr(A.axes, mul(A.elem, ind(('le' if name == 'tril' else 'ge', ix(lin(c)), ix(padd(lin(r), pc(k)))))))
        if name in ('linalg.inv', 'linalg.det', 'linalg.slogdet'):
            A = self.num(self.ev(first))
            return self.matfn(name.split('.')[1], A)
        if name in ('any', 'all'):
            A = self.num(self.ev(first))
            if A.elem in (ZERO, ONE):
                return A.elem == ONE
            raise Und(name)
        if name == 'prod':
            v = self.ev(first)
            if isinstance(v, (tuple, list)) or (isinstance(v, Arr) and v.ndim == 1 and pconst(v.size()) is not None):
                return scp(pmul(*[to_poly(x) for x in self.seqof(v)]))
            raise Und('prod')
        if name == 'item':
            A = self.num(self.ev(first))
            return sc(A.elem)
        if name == 'size':
            return scp(self.num(self.ev(first)).size())
        raise Und('numpy.' + name)

    def outer(self, x, y):
        x, y = freshen(ravel(x)), freshen(ravel(y))
        return Arr(x.axes + y.axes, mul(x.elem, y.elem))

    def reshapeF(self, A, dims):
        A = perm(A, range(A.ndim)[::-1])
        B = reshape(A, list(reversed(dims)))
        return perm(B, range(B.ndim)[::-1])

    def stackmap(self, m):
        v, A = freshen_map(m)
        return Arr(((v,),) + A.axes, A.elem)

    def keep(self, R, A, b, g):
        if 'keepdims' in b and g('keepdims') is not False:
            if g('keepdims') is not True:
                raise Und('keepdims')
            k = getaxis(g('axis'), A.ndim)
            if k is None:
                return Arr(((),) * A.ndim, R.elem)
            if isinstance(k, tuple):
                raise Und('keepdims')
            return Arr(R.axes[:k] + ((),) + R.axes[k:], R.elem)
        return R

    def lit_extremum(self, v, name):
        ps = [to_poly(x) for x in v]
        best = ps[0]
        for p in ps[1:]:
            d = psub(p, best)
            if d == ():
                continue
            s = psign(d)
            if s is None:
                # products of sizes: compare by divisibility
                if idiv(p, best) is not None:
                    s = 1
                elif idiv(best, p) is not None:
                    s = -1
                else:
                    raise Und('extremum of sizes')
            if (s < 0) == (name == 'amin'):
                best = p
        return scp(best)

    def ix_extremum(self, A, k, name):
        """Extremum of an index polynomial with non-negative coefficients over one axis."""
        A = freshen(A)
        facs = [v for f in A.axes for v in f] if k is None else A.axes[k]
        p = A.elem[1]
        for m, c in p:
            if c < 0 and any(v in m for v in facs):
                return None
            if any(not isinstance(a, str) for a in m):
                return None
        s = {v: (() if name == 'amin' else psub(SIZES[v], P1)) for v in facs}
        e = esubst(A.elem, s)
        return Arr([f for i, f in enumerate(A.axes) if k is not None and i != k], e)

    def roll1(self, A, k, s):
        f = A.axes[k]
        if not f:
            return A
        n = fsize(f)
        w = fresh(n)
        return Arr(A.axes[:k] + ((w,),) + A.axes[k + 1:], esubst(A.elem, digits(X.pmod(psub(pv(w), s), n), f)))

    def matfn(self, kind, A):
        A = freshen(A)
        if A.ndim < 2 or A.elem[0] != 'x':
            raise Und('matrix function of an expression')
        n = fsize(A.axes[-1])
        if fsize(A.axes[-2]) != n:
            raise Refused('not square')
        idx = A.elem[2]
        if len(idx) != A.ndim or any(p != lin(f) for p, f in zip(idx, A.axes)):
            raise Und('matrix function of a rearranged matrix')
        nb = A.ndim - 2
        desc = (A.elem[1], nb, n)
        if kind == 'inv':
            return Arr(A.axes, ('mat', 'inv', desc, idx))
        b = A.axes[:nb]
        if kind == 'det':
            return Arr(b, ('mat', 'det', desc, idx[:nb]))
        return (Arr(b, ('mat', 'sign', desc, idx[:nb])), Arr(b, ('mat', 'logdet', desc, idx[:nb])))

    # -- path conditions
    def fact(self, t):
        """True, False, a condition tuple (data dependent), or None."""
        op, a = t.op, t.a
        try:
            if op == 'not':
                v = self.fact(a[0])
                return None if v is None else ((not v) if isinstance(v, bool) else ('not', v))
            if op == 'is':
                x, y = a
                if x in self.env and y in self.env and (self.env[x] is None) != (self.env[y] is None):
                    return False
                if NONE in a:
                    o = a[1] if a[0] is NONE else a[0]
                    v = self.ev(o)
                    return v is None
                if TRUE in a or FALSE in a:
                    o = a[1] if a[0] in (TRUE, FALSE) else a[0]
                    c = a[0] if o is a[1] else a[1]
                    v = self.ev(o)
                    if isinstance(v, bool):
                        return v is cv(c)
                return None
            if op in ('eq', 'lt', 'le'):
                x, y = self.ev(a[0]), self.ev(a[1])
                return self.compare(op, x, y)
            if op == 'in':
                x, y = self.ev(a[0]), self.ev(a[1])
                if isinstance(y, (tuple, list)):
                    rs = [self.compare('eq', x, z) for z in y]
                    if any(r is True for r in rs):
                        return True
                    if all(r is False for r in rs):
                        return False
                return None
            v = self.ev(t)
            if isinstance(v, bool):
                return v
            if v is None:
                return False
            if isinstance(v, Arr) and v.ndim == 0:
                c = as_cond(v.elem)
                k = X.cond_const(c)
                return k if k is not None else c
            if isinstance(v, (tuple, list)):
                return len(v) > 0
        except Refused:
            return None
        except Und:
            return None
        return None

    def compare(self, op, x, y):
        if x is None or y is None or isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
            if op == 'eq':
                if type(x) is type(y):
                    return x == y
                if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
                    return False
                if isinstance(x, bool) and isinstance(y, Arr) or isinstance(y, bool) and isinstance(x, Arr):
                    return self.compare('eq', self.num(x), self.num(y))
            return None
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            if op != 'eq':
                return None
            if len(x) != len(y):
                return False
            rs = [self.compare('eq', p, q) for p, q in zip(x, y)]
            return False if any(r is False for r in rs) else (True if all(r is True for r in rs) else None)
        if isinstance(x, Arr) and isinstance(y, Arr):
            if x.ndim or y.ndim:
                return None
            try:
                d = psub(to_poly(x), to_poly(y))
            except Und:
                return (op, x.elem, y.elem)
            if d == ():
                return op in ('eq', 'le')
            s = psign(d)
            if s is None:
                GENERIC.append((op, d))
            if op == 'eq':
                return False if s is None or s != 0 else True
            if s is None:
                return ({'lt': 'lt', 'le': 'le'}[op], ix(to_poly(x)), ix(to_poly(y)))
            return s < 0
        return None


GENERIC = []         # size comparisons decided for the generic size only (see jac.specialise)


def is_int(e):
    return e[0] in ('ix', 'ind') or (e[0] == 'n' and isinstance(e[1], Fraction) and e[1].denominator == 1) or (e[0] in ('+', '*') and all(is_int(x) for x in e[1:]))


def freshen_map(m):
    w = fresh(SIZES[m.var])
    A = m.body
    if not isinstance(A, Arr):
        raise Und('sequence of matrices')
    A = freshen(A)
    return w, Arr(A.axes, esubst(A.elem, {m.var: pv(w)}))
