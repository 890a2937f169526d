"""C04: derivatives follow the chain rule, each distinct input once."""
from ..core import *
from ..track import *
from ..terms import *
from ..interp import mkis

EXPLAIN = ('Path analysis of the derivative-accumulation methods (forward and reverse mode of dr_wrt, lmult_wrt, lop, compute_rop, compute_lop, the '
           'product helper and the slicing rule) on a generic node with two inputs, in every aliasing situation (inputs distinct, inputs the same '
           'object, the variable one of the inputs, an input that is a property, an input not yet set, the variable a selection or a selection of a selection of an input).  The '
           'term each path returns is brought to a normal form, a sum of products of local derivatives J(input) and input derivatives D(input, variable) '
           '(sparse/dense conversions are transparent, operators given by closures are applied to a symbol), and compared as a multiset with the chain '
           'rule: sum over distinct inputs of J*D plus the direct term, leaving out only what the path established to be absent.')

PROBE = '''
from .ch import Ch
class Probe(Ch):
    dterms = 'p', 'q'
    terms = 'opt',
class ProbeProp(Ch):
    dterms = 'p', 'q'
    @property
    def q(self):
        return self.kept
'''
PRIM = ('_call_on_changed', 'compute_dr_wrt', 'dr_wrt', 'lmult_wrt', 'lop', '_superdot', 'is_dr_wrt', 'on_changed')
SIG = {'dr_wrt': ('wrt', 'reverse_mode', 'profiler'), 'lmult_wrt': ('lhs', 'wrt'), 'lop': ('wrt', 'lhs'), '_superdot': ('lhs', 'rhs', 'profiler'),
       'compute_dr_wrt': ('wrt',), 'is_dr_wrt': ('wrt',)}
SAME = set(['csc_matrix', 'csr_matrix', 'coo_matrix', 'lil_matrix', 'asarray', 'array', 'atleast_2d', 'matrix', 'asmatrix', 'mat', 'asfarray', 'ascontiguousarray',
            'todense', 'toarray', 'tocsc', 'tocsr', 'tocoo', 'tolil', 'copy', 'asformat', 'astype', 'squeeze_scalar', 'aslinearoperator'])


class Opaque(Exception):
    pass


class Infeas(Exception):
    pass


def bind(t):
    """Arguments of a primitive method call by name."""
    _, obj, name, args, kw = t.a[0], t.a[0], t.a[1], t.a[2], t.a[3]
    sig = SIG[name]
    d = dict(zip(sig, args))
    for k, v in kw:
        d[k] = v
    return obj, name, d


class Norm(object):
    scalar = False

    def __init__(self, ctx, st, absent=(), sub=None):
        self.ctx = ctx
        self.st = st
        self.sub = sub or {}

    def mul(self, *ws):
        out = [()]
        for w in ws:
            out = [a + b for a in out for b in w]
        return out

    def atom(self, *a):
        return [(a,)]

    def words(self, t):
        """Sum of products denoted by a term; [] for nothing (None)."""
        t = norm(t)
        if t in self.sub:
            return self.sub[t]
        if t is NONE:
            return []
        op = t.op
        if op == 'vcall' and t.a[1] in SIG:
            obj, name, d = bind(t)
            if name == 'compute_dr_wrt':
                return self.atom('J', obj, d['wrt'])
            if name == 'dr_wrt':
                return self.atom('D', obj, d['wrt'])
            if name in ('lmult_wrt', 'lop'):
                return self.mul(self.words(d['lhs']), self.atom('D', obj, d['wrt']))
            if name == '_superdot':
                return self.mul(self.words(d['lhs']), self.words(d['rhs']))
        if op == 'bin':
            if t.a[0] == 'Add':
                return self.words(t.a[1]) + self.words(t.a[2])
            if t.a[0] == 'MatMult':
                return self.mul(self.words(t.a[1]), self.words(t.a[2]))
        if op == 'T' or (op in ('attr', 'spm', 'npattr') and len(t.a) > 1 and t.a[1] in ('T', 'transpose')):
            return [tuple(self.tr(x) for x in reversed(w)) for w in self.words(t.a[0])]
        if op == 'spm':
            name, args = t.a[1], t.a[2]
            if name in SAME:
                return self.words(t.a[0])
            if name in ('dot', 'matmat', 'matvec', '__matmul__', 'multiply_matrix') and len(args) == 1:
                return self.mul(self.words(t.a[0]), self.words(args[0]))
        if op == 'sp' and t.a[0] in SAME:
            for n, v in t.a[1]:
                if n in ('arg', 'arg1', 'a', 'A'):
                    return self.words(v)
            return self.words(t.a[1][0][1])
        if op == 'np':
            name = t.a[0]
            if name in SAME:
                return self.words(t.a[1][0][1])
            if name in ('dot', 'matmul'):
                return self.mul(self.words(t.a[1][0][1]), self.words(t.a[1][1][1]))
            if name == 'add':
                return self.words(t.a[1][0][1]) + self.words(t.a[1][1][1])
            if name == 'transpose' and len(t.a[1]) == 1:
                return [tuple(self.tr(x) for x in reversed(w)) for w in self.words(t.a[1][0][1])]
        if op == 'linop':
            return self.operator(t)
        raise Opaque(show(t)[:120])

    def tr(self, x):
        return x[1] if x[0] == 'T' else ('T', x)

    def operator(self, t):
        fn = [x for x in t.a if isinstance(x, Term) and x.op in ('fn', 'bound', 'partial')]
        if not fn:
            raise Opaque('operator')
        x = T('sym', '%applied')
        I = self.ctx.I
        st = self.st
        ps = None
        try:
            save = I.st

            def thunk():
                return I.call(fn[0], [x], {})
            I.st = st.clone()
            try:
                ps = I.explore(thunk, I.st)
            finally:
                I.st = save
        except (Unsupported, Budget) as e:
            raise Opaque('operator: %s' % e)
        res = None
        for p in ps:
            if p.outcome == 'raise':
                continue
            n = self.__class__(self.ctx, p.st, sub=dict(self.sub))
            n.sub[x] = [(('X',),)]
            ws = n.words(p.value)
            self.scalar = self.scalar or n.scalar
            out = []
            for w in ws:
                if not w or w[-1] != ('X',) or ('X',) in w[:-1]:
                    raise Opaque('operator not linear in its argument')
                out.append(w[:-1])
            if res is not None and sorted(map(repr, res)) != sorted(map(repr, out)):
                raise Opaque('operator')
            res = out
        if res is None:
            raise Opaque('operator')
        return res


class Know(object):
    """What a path established about the presence of the contributions."""

    def __init__(self, nm, facts, chains):
        self.yes = set()
        self.no = set()
        self.nowords = []
        isd = {}
        for a, v in facts:
            a = norm(a)
            if a.op == 'is' and NONE in a.a:
                x = a.a[0] if a.a[1] is NONE else a.a[1]
                try:
                    ws = nm.words(x)
                except Opaque:
                    continue
                if not ws:
                    if not v:
                        raise Infeas()
                    continue
                if len(ws) > 1:
                    continue
                w = [y[1] if y[0] == 'T' else y for y in ws[0]]
                if v:
                    un = [y for y in w if y not in self.yes]
                    if any(y in self.no for y in w):
                        continue
                    if not un:
                        raise Infeas()
                    if len(un) == 1:
                        self.no.add(un[0])
                    else:
                        self.nowords.append(frozenset(w))
                else:
                    if any(y in self.no for y in w) or any(s <= set(w) for s in self.nowords):
                        raise Infeas()
                    self.yes.update(w)
            elif a.op == 'truth' and a.a[0].op == 'vcall' and a.a[0].a[1] == 'is_dr_wrt':
                obj, _, d = bind(a.a[0])
                isd.setdefault(obj, {})[d['wrt']] = v
        for obj, d in isd.items():
            for w, chain in chains.items():
                if all(d.get(x) is False for x in chain):
                    self.no.add(('D', obj, w))
                    if ('D', obj, w) in self.yes:
                        raise Infeas()

    def absent(self, w):
        w = [y[1] if y[0] == 'T' else y for y in w]
        return any(y in self.no for y in w) or any(s <= set(w) for s in self.nowords)


def word(w):
    def a(x):
        if x[0] == 'T':
            return a(x[1]) + '^T'
        if x[0] == 'J':
            return 'J(%s)' % show(x[2])
        if x[0] == 'D':
            return 'D(%s,%s)' % (show(x[1]), show(x[2]))
        return str(x[0]) if len(x) == 1 else str(x[1])
    return '*'.join(a(x) for x in w) or '1'


def compare(ctx, ps, expected, chains, cached=None, sub=None):
    """-> (status, message); expected(know) -> list of words."""
    n = 0
    for p in ps:
        if p.outcome not in ('return', 'next'):
            continue
        v = norm(p.value)
        if cached is not None and contains(v, lambda t: t is cached):
            continue
        nm = Norm(ctx, p.st, sub=sub)
        try:
            know = Know(nm, p.facts, chains)
        except Infeas:
            continue
        n += 1
        try:
            got = nm.words(v)
        except Opaque as e:
            yield ('und', 'a returned term is not a recognised sum of products: %s' % e)
            continue
        got = [w for w in got if not know.absent(w)]
        exp = [w for w in expected(know) if not know.absent(w)]
        left = list(exp)
        extra = []
        for w in got:
            if w in left:
                left.remove(w)
            else:
                extra.append(w)
        if left or extra:
            m = []
            if extra and left and sorted(map(sorted, [map(repr, w) for w in extra])) == sorted(map(sorted, [map(repr, w) for w in left])):
                m.append('factors in the wrong order: %s instead of %s' % (', '.join(map(word, extra)), ', '.join(map(word, left))))
            else:
                if left:
                    m.append('contribution dropped: %s' % ', '.join(map(word, left)))
                if extra:
                    m.append('not a contribution, or counted again: %s' % ', '.join(map(word, extra)))
            if v is NONE:
                m.append('no derivative is reported')
            yield ('bad', '; '.join(m))
        else:
            yield ('ok', '')
    if n == 0:
        yield ('und', 'no path returns')


def judge(rep, rule, cons, loc, res, what):
    bad = [m for s, m in res if s == 'bad']
    und = [m for s, m in res if s == 'und']
    if bad:
        rep.bad(rule, cons, loc, bad[0])
    elif und:
        rep.und(rule, cons, loc, und[0])
    else:
        rep.ok(rule, cons, loc, '%d paths, %s' % (len(res), what))


def accumulate(ctx, rep):
    I = ctx.I
    k = [x for x in I.chclasses if ctx.short(x).endswith('.Probe')][0]
    kp = [x for x in I.chclasses if ctx.short(x).endswith('.ProbeProp')][0]
    sel = [x for x in I.chclasses if ctx.short(x).endswith('.Select')]
    P, Q = T('inst', I.ch, 'p'), T('inst', I.ch, 'q')
    w = T('inst', I.ch, 'wrt')
    base = ['p', 'q', 'opt', '_cache', '_parents', '_dirty_vars', '_itr', '_depends_on_deps']
    scen = [('inputs distinct', k, {'p': P, 'q': Q}, w, base, {}),
            ('both inputs the same object', k, {'p': P, 'q': P}, w, base, {}),
            ('the variable is an input', k, {'p': P, 'q': Q}, P, base, {}),
            ('the variable is both inputs', k, {'p': P, 'q': P}, P, base, {}),
            ('one input not set', k, {'p': P}, w, [x for x in base if x != 'q'], {}),
            ('an input is a property', kp, {'p': P, 'q': Q}, w, [x for x in base if x != 'q'], {})]
    if sel:
        ws = T('inst', sel[0], 'selection')
        ws2 = T('inst', sel[0], 'selection2')
        u = T('inst', I.ch, 'u')
        scen.append(('the variable is a selection of an input', k, {'p': P, 'q': Q}, ws, base, {(ws, 'a'): P}))
        scen.append(('the variable is a selection of something deeper', k, {'p': P, 'q': Q}, ws, base, {(ws, 'a'): u}))
        scen.append(('the variable is a selection of a selection of an input', k, {'p': P, 'q': Q}, ws2, base, {(ws2, 'a'): ws, (ws, 'a'): P}))
    L = T('sym', 'lhs')
    for label, c, held, v, names, more in scen:
        s = ctx.inst(c)
        chain = [v]
        while (chain[-1], 'a') in more:
            chain.append(more[(chain[-1], 'a')])
        objs = list(dict.fromkeys([s, P, Q, w] + chain))
        facts = {mkis(a, b): False for i, a in enumerate(objs) for b in objs[i + 1:]}
        attrs = {(s, n): o for n, o in held.items()}
        attrs.update(more)
        inputs = list(dict.fromkeys(held.values()))
        Lw = [(('L',),)]

        def expected(know, left):
            out = []
            d = ('J', s, v)
            if d not in know.no:
                out.append((d,))
            else:
                for inner in chain[1:]:
                    if ('J', s, inner) not in know.no:
                        out.append((('J', s, inner), ('T', ('D', v, inner))))
                        break
            for p in inputs:
                if p is not v:
                    out.append((('J', s, p), ('D', p, v)))
            return [left + x for x in out]
        for name, args, left in (('dr_wrt', [s, v], ()), ('lmult_wrt', [s, L, v], (('L',),)), ('lop', [s, v, L], (('L',),)),
                                 ('dr_wrt reverse', [s, v, TRUE], ())):
            f = ctx.method(c, name.split()[0])
            cons = '%s (%s)' % (name, label)
            if more and name == 'dr_wrt reverse':        # one input is enough: the others are covered above
                attrs.pop((s, 'q'), None)
                names = [x for x in names if x != 'q']
                inputs = [x for x in inputs if x is not Q]
            if f is None:
                rep.und('chain-rule', cons, None, 'not found')
                continue
            I.closed = {s: names}
            try:
                ps = ctx.run(f, args, selfterm=s, prim=PRIM, facts=dict(facts), attrs=dict(attrs))
                if ps is None:
                    rep.und('chain-rule', cons, ctx.fnloc(f), ctx.note)
                    continue
                # the path split on whether the left factor is given at all
                sub = {L: Lw}
                cached = T('item', T('item', T('attr', s, '_cache'), C('drs')), v)
                res = []
                for r in compare(ctx, ps, lambda know: [x for x in expected(know, left) if not any(y in know.no for y in left)], {v: chain}, cached, sub):
                    res.append(r)
            finally:
                I.closed = {}
            judge(rep, 'chain-rule', cons, ctx.fnloc(f), res, 'each returns exactly the contributions present')
            rep.count('paths', len(res))


def product(ctx, rep):
    """_superdot(lhs, rhs) is the matrix product, in this order, and nothing only when a factor is nothing."""
    I = ctx.I
    f = ctx.method(I.ch, '_superdot')
    if f is None:
        rep.und('product', '_superdot', None, 'not found')
        return
    s = T('inst', I.ch, 'self', 'open')
    l, r = T('sym', 'lhs'), T('sym', 'rhs')
    ps = ctx.run(f, [s, l, r], selfterm=s, prim=('convert_inputs_to_sparse_if_necessary',))
    loc = ctx.fnloc(f)
    if ps is None:
        rep.und('product', ctx.qual(f), loc, ctx.note)
        return
    res = []
    for p in ps:
        if p.outcome not in ('return', 'next'):
            continue
        fd = {norm(a): v for a, v in p.facts}
        none = fd.get(mkis(l, NONE)) or fd.get(mkis(r, NONE))
        v = norm(p.value)
        if none:
            res.append(('ok', '') if v is NONE else ('bad', 'a product with a missing factor is not missing'))
            continue
        if v is NONE:
            res.append(('bad', 'nothing is returned though both factors are given') if mkis(l, NONE) in fd and mkis(r, NONE) in fd else ('und', 'presence of the factors not asked'))
            continue
        nm = Scal(ctx, p.st, sub={l: [(('L',),)], r: [(('R',),)]})
        try:
            ws = nm.words(v)
        except Opaque as e:
            res.append(('und', 'not recognised: %s' % e))
            continue
        if ws == [(('L',), ('R',))]:
            res.append(('ok', ''))
        elif ws == [(('R',), ('L',))]:
            # a number commutes
            res.append(('ok', '') if nm.scalar else ('bad', 'factors multiplied in the wrong order'))
        else:
            res.append(('bad', 'the product is %s instead of lhs*rhs' % ' + '.join(map(word, ws))))
    judge(rep, 'product', ctx.qual(f), loc, res, 'each returns lhs*rhs, or nothing with a missing factor')


class Scal(Norm):
    def words(self, t):
        t = norm(t)
        if t in self.sub:
            return self.sub[t]
        if t.op == 'bin' and t.a[0] == 'Mult':
            self.scalar = True
            return self.mul(self.words(t.a[1]), self.words(t.a[2]))
        if t.op in ('item', 'idx', 'getitem') and norm(t.a[1]) in (C(0), tup([C(0)])):
            return self.words(t.a[0])
        if t.op == 'np' and t.a[0] == 'ravel':
            return self.words(t.a[1][0][1])
        if t.op == 'spm' and t.a[1] in ('ravel', 'flatten', 'item'):
            return self.words(t.a[0])
        return Norm.words(self, t)


def reach(ctx, rep):
    """is_dr_wrt denies only when the variable is no input and all inputs deny."""
    I = ctx.I
    k = [x for x in I.chclasses if ctx.short(x).endswith('.Probe')][0]
    s = ctx.inst(k)
    P, Q, w = T('inst', I.ch, 'p'), T('inst', I.ch, 'q'), T('inst', I.ch, 'wrt')
    f = ctx.method(k, 'is_dr_wrt')
    if f is None:
        return
    facts = {mkis(a, b): False for a in (s, P, Q, w) for b in (s, P, Q, w) if a is not b}
    for label, v in (('a deeper variable', w), ('a direct input', Q)):
        I.closed = {s: ['p', 'q', 'opt', '_cache', '_parents', '_dirty_vars', '_itr', '_depends_on_deps']}
        try:
            ps = ctx.run(f, [s, v], selfterm=s, prim=PRIM, facts=dict(facts), attrs={(s, 'p'): P, (s, 'q'): Q})
        finally:
            I.closed = {}
        cons = 'is_dr_wrt (%s)' % label
        if ps is None:
            rep.und('reach', cons, ctx.fnloc(f), ctx.note)
            continue
        res = []
        for p in ps:
            if p.outcome not in ('return', 'next'):
                continue
            r = norm(p.value)
            den = {}
            for a, b in p.facts:
                a = norm(a)
                if a.op == 'truth' and a.a[0].op == 'vcall' and a.a[0].a[1] == 'is_dr_wrt':
                    obj, _, d = bind(a.a[0])
                    if d.get('wrt') is v:
                        den[obj] = b
            if r is TRUE or r is FALSE or r is NONE:
                if r is not TRUE:
                    if v is Q:
                        res.append(('bad', 'a direct input is denied'))
                    elif den.get(P) is False and den.get(Q) is False:
                        res.append(('ok', ''))
                    else:
                        res.append(('bad', 'dependence is denied though %s was not asked' % ('p' if den.get(P) is not False else 'q')))
                else:
                    res.append(('ok', ''))
            else:
                res.append(('und', 'returned %s' % show(r)[:80]))
        judge(rep, 'reach', cons, ctx.fnloc(f), res, 'denied only when every input denies')


def leaf(ctx, rep):
    I = ctx.I
    f = ctx.method(I.ch, 'compute_dr_wrt')
    s = T('inst', I.ch, 'self')
    o = T('inst', I.ch, 'other')
    if f is None:
        return
    for label, v, facts in (('itself', s, {}), ('another object', o, {mkis(s, o): False})):
        ps = ctx.run(f, [s, v], selfterm=s, facts=dict(facts))
        cons = 'Ch wrt %s' % label
        if ps is None:
            rep.und('leaf', cons, ctx.fnloc(f), ctx.note)
            continue
        for p in ps:
            if p.outcome not in ('return', 'next'):
                continue
            r = norm(p.value)
            if v is o:
                if r is NONE:
                    rep.ok('leaf', cons, ctx.fnloc(f), 'nothing')
                else:
                    rep.bad('leaf', cons, ctx.fnloc(f), 'a plain array reports a derivative with respect to another object')
            elif r is NONE:
                rep.bad('leaf', cons, ctx.fnloc(f), 'a plain array reports no derivative with respect to itself')
            elif r.op == 'sp' and r.a[0] in ('eye', 'identity', 'speye'):
                rep.ok('leaf', cons, ctx.fnloc(f), 'identity')
            else:
                rep.und('leaf', cons, ctx.fnloc(f), 'not recognised as the identity: %s' % show(r)[:80])


def check(ctx, rep):
    pctx = Ctx(ctx.repo, probe=PROBE)
    leaf(ctx, rep)
    product(ctx, rep)
    reach(pctx, rep)
    accumulate(pctx, rep)
    rep.assume.append('sparse and dense matrices and linear operators of scipy multiply, add and transpose as matrices')
