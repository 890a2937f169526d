"""Dependence analysis of what an operation keeps between evaluations.

A path that returns or decides on kept state (an attribute of the node that is neither input nor option, or an entry of a
container held there) is compared with the paths that produce that state: everything the kept thing was computed from must be
determined by the key under which it is found again, by a comparison on the reading path, or the change hook must drop or
renew it whenever that thing changes."""
from .interp import mkis, mkeq
from .terms import T, C, NONE, TRUE, FALSE, Term, is_c, cv, tup, show, subterms
from .track import norm, A, flat, opaque, loops

WHICH = T('sym', 'which')
INTERNAL = set(['_cache', '_parents', '_dirty_vars', '_itr', '_depends_on_deps', '_status', 'called_dr_wrt', '__dict__', '_cache_info', 'label'])
SHAPEOPS = set(['ones_like', 'zeros_like', 'empty_like', 'shape', 'ndim', 'size'])
LOSSY = set(['sum', 'prod', 'max', 'min', 'amax', 'amin', 'size', 'ndim', 'mean', 'any', 'all', 'argmax', 'sign', 'count_nonzero', 'round'])


class Deps(object):
    """What a term is computed from."""
    def __init__(self, ctx, s, inputs, options):
        self.ctx, self.s, self.ins, self.opts = ctx, s, tuple(inputs), tuple(options)

    def inp(self, t):
        """d if t is the value of input d (or the input itself)."""
        if t.op == 'val' and len(t.a) >= 1 and isinstance(t.a[0], Term):
            t = t.a[0]
        if t.op == 'attr' and t.a[0] is self.s and t.a[1] in self.ins:
            return t.a[1]
        return None

    def me(self, t):
        return t.op == 'val' and t.a[0] is self.s or t is self.s

    def leaves(self, t, shape=False, out=None):
        if out is None:
            out = set()
            t = norm(t)
        if isinstance(t, tuple):
            for x in t:
                self.leaves(x, shape, out)
            return out
        if not isinstance(t, Term):
            return out
        op = t.op
        if op == 'c':
            return out
        if op == 'item' and isinstance(t.a[0], Term) and t.a[0].op == 'shape' and is_c(t.a[1]) and isinstance(cv(t.a[1]), int):
            d = self.inp(t.a[0].a[0])
            if d:
                out.add(('shape_i', d, cv(t.a[1])))
                return out
        if op in ('shape', 'size', 'ndim'):
            d = self.inp(t.a[0])
            if d:
                out.add((op, d))
                return out
            if self.me(t.a[0]):
                for d in self.ins:
                    out.add(('shape', d))
                return out
            return self.leaves(t.a[0], True, out)
        if op == 'len':
            x = t.a[0]
            d = self.inp(x)
            if d:
                out.add(('shape_i', d, 0))
                return out
            if x.op == 'shape' and self.inp(x.a[0]):
                out.add(('ndim', self.inp(x.a[0])))
                return out
            return self.leaves(x, True, out)
        if op == 'np' and t.a[0] in SHAPEOPS:
            if t.a[0] == 'prod':
                pass
            return self.leaves(t.a[1:], True, out)
        d = self.inp(t)
        if d:
            if op == 'attr' and not shape:
                out.add(('node', d))
            else:
                out.add(('shape' if shape else 'content', d))
            return out
        if self.me(t):
            for d in self.ins:
                out.add(('shape' if shape else 'content', d))
            if op == 'inst':
                return out
            return out
        if op == 'attr' and t.a[0] is self.s:
            if t.a[1] in self.opts:
                out.add(('opt', t.a[1]))
            elif t.a[1] not in INTERNAL:
                out.add(('state', t.a[1]))
            return out
        for x in t.a:
            if isinstance(x, (Term, tuple)):
                self.leaves(x, shape, out)
        return out

    def key(self, t, sure=None, maybe=None):
        """(what the key certainly determines, what it may determine)."""
        if sure is None:
            sure, maybe = set(), set()
            t = norm(t)
        if isinstance(t, tuple):
            for x in t:
                self.key(x, sure, maybe)
            return sure, maybe
        if not isinstance(t, Term) or t.op == 'c':
            return sure, maybe
        op = t.op
        if op in ('tup', 'list', 'tupof', 'listof', 'fmt', 'frozen'):
            for x in t.a:
                self.key(x, sure, maybe)
            return sure, maybe
        if op == 'bin' and t.a[0] == 'Add':
            parts = []
            stack = [t]
            while stack:
                x = norm(stack.pop())
                if isinstance(x, Term) and x.op == 'bin' and x.a[0] == 'Add':
                    stack += [x.a[2], x.a[1]]
                else:
                    parts.append(x)
            SEQ = ('tup', 'list', 'shape', 'tupof', 'listof', 'frozen')
            if any(isinstance(x, Term) and x.op in SEQ for x in parts):
                # sequences put one after the other: told apart unless two of varying length meet
                def varies(x):
                    return x.op not in ('tup', 'list') or any(isinstance(y, Term) and y.op == 'star' for y in x.a)

                def marker(x):
                    return x.op in ('tup', 'list') and any(isinstance(y, Term) and (y is NONE or y.op == 'c' and isinstance(cv(y), str)) for y in x.a)
                free = [i for i, x in enumerate(parts) if varies(x)]
                clear = len(free) < 2 or all(any(marker(x) for x in parts[i + 1:j]) for i, j in zip(free, free[1:]))
                for x in parts:
                    if clear or not varies(x):
                        self.key(x, sure, maybe)
                    else:
                        maybe |= self.leaves(x)
                return sure, maybe
        if op == 'star':
            for x in t.a[1:]:
                self.key(x, sure, maybe)
            return sure, maybe
        if op == 'item' and t.a[0].op == 'shape' or op in ('shape', 'size', 'ndim'):
            sure |= self.leaves(t)
            return sure, maybe
        if op == 'len':
            l = self.leaves(t)
            sure |= set(x for x in l if x[0] != 'opt' and x[0] != 'shape')
            return sure, maybe
        if op == 'id':
            d = self.inp(t.a[0])
            if d:
                sure.add(('node', d))
            return sure, maybe
        if op == 'np' and t.a[0] in ('ravel', 'asarray', 'array', 'atleast_1d', 'copy', 'tolist'):
            for x in t.a[1:]:
                self.key(x, sure, maybe)
            return sure, maybe
        if op == 'np' and t.a[0] in LOSSY or op in ('bin', 'cmp', 'un', 'setof', 'sorted', 'set', 'not', 'typeof'):
            return sure, maybe
        if op in ('val', 'attr', 'inst'):
            sure |= self.leaves(t)
            return sure, maybe
        maybe |= self.leaves(t)
        return sure, maybe


def covered(leaf, have):
    if leaf in have:
        return True
    k, d = leaf[0], leaf[1]
    if k == 'content':
        return False
    if ('content', d) in have:
        return k != 'node'
    if k in ('size', 'ndim', 'shape_i') and ('shape', d) in have:
        return True
    return False


def fact_keys(D, p, W, stored):
    """What comparisons with kept state on the path pin down: a fact X == self.Y, where Y was stored as X."""
    have, maybe = set(), set()
    for a, v in p.facts:
        t = norm(a)
        if t.op not in ('eq', 'is') or not v:
            continue
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if y.op == 'attr' and y.a[0] is D.s and y.a[1] in W:
                s, m = D.key(x)
                m = m | s
                if any(norm(z) is x for z in stored.get(y.a[1], ())):
                    have |= s
                    maybe |= m
                else:
                    maybe |= m
            elif any(q.op == 'attr' and q.a[0] is D.s and q.a[1] in W for q in subterms(y)):
                # compared with a feature of the kept thing itself
                s, m = D.key(x)
                have |= s
                maybe |= m
    return have, maybe


def pinned(D, p):
    """Inputs and options that the path knows to be a constant."""
    out = set()
    for a, v in p.facts:
        t = norm(a)
        if t.op in ('eq', 'is') and v:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if is_c(y):
                    out |= set(l for l in D.leaves(x) if x.op in ('attr', 'shape', 'item', 'size', 'ndim', 'len'))
    return out


def excluded(D, p, leaf):
    """The hook path runs only if the thing did not change."""
    names = (leaf[1],)
    for a, v in p.facts:
        t = norm(a)
        if t.op == 'in' and t.a[1] is WHICH and is_c(t.a[0]) and cv(t.a[0]) in names and not v:
            return True
        if t.op == 'truth' and not v and t.a[0] is WHICH:
            return True
        if t.op == 'truth' and not v and t.a[0].op == 'setop' and t.a[0].a[0] == 'intersection':
            parts = [x for x in t.a[0].a[1:] if isinstance(x, Term)]
            for x in parts:
                if x.op in ('set', 'list', 'tup') and C(names[0]) in x.a and any(WHICH in subterms(y) for y in parts):
                    return True
    return False


def drops(p, s, X):
    """The path removes or renews what is kept under X."""
    for e in flat(p.eff):
        if e.kind == 'delattr' and norm(e.a[0]) is s and e.a[1] == X:
            return True
        if e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == X:
            return True
        if e.kind == 'mut' and norm(e.a[0]) is A(s, X) and e.a[1] == 'clear':
            return True
        if e.kind == 'delitem' and norm(e.a[0]) is A(s, '__dict__') and e.a[1] is C(X):
            return True
        if e.kind == 'mut' and norm(e.a[0]) is A(s, '__dict__') and e.a[1] == 'pop' and e.a[2] and e.a[2][0] is C(X):
            return True
    return False


def absent(p, s, X):
    for a, v in p.facts:
        t = norm(a)
        if t.op == 'hasattr' and t.a[0] is s and (t.a[1] == X or t.a[1] is C(X)) and not v:
            return True
        if t.op == 'in' and t.a[0] is C(X) and t.a[1] is A(s, '__dict__') and not v:
            return True
    return False


def kept_reads(t, s, W):
    """(X, key or None) for every use of kept state in the term."""
    out = []
    seen = set()

    def rec(t):
        if isinstance(t, tuple):
            for x in t:
                rec(x)
            return
        if not isinstance(t, Term) or t in seen:
            return
        seen.add(t)
        if t.op == 'item' and t.a[0].op == 'attr' and t.a[0].a[0] is s and t.a[0].a[1] in W:
            out.append((t.a[0].a[1], t.a[1]))
            rec(t.a[1])
            return
        if t.op == 'mcall' and t.a[1] in ('get', 'setdefault', 'pop') and t.a[0].op == 'attr' and t.a[0].a[0] is s and t.a[0].a[1] in W and t.a[2]:
            out.append((t.a[0].a[1], t.a[2][0]))
            rec(t.a[2])
            return
        if t.op == 'attr' and t.a[0] is s and t.a[1] in W:
            out.append((t.a[1], None))
            return
        for x in t.a:
            rec(x)
    rec(t)
    return out


def analyse(ctx, cls, which):
    """which: 'r' or the name of an input.  Yields (construct, status, loc, message)."""
    I = ctx.I
    s = ctx.inst(cls)
    inputs = I.dterms(cls)
    dyn = ()
    if not inputs:
        dyn = ('m0', 'm1')
    ins = inputs or dyn
    opts = [t for t in I.terms(cls) if t not in ins]
    runs = {}
    runs['r'] = ctx.r_paths(cls, dyn) if ctx.method(cls, 'compute_r') else None
    for d in ins:
        runs[d] = ctx.dr_paths(cls, d, (), dyn)
    oc = ctx.oc_paths(cls, dyn) if ctx.own(cls, 'on_changed') else []
    label = '%s.%s' % (ctx.short(cls), 'value' if which == 'r' else which)
    if runs.get(which) is None:
        yield label, 'und', None, 'not summarised: %s' % getattr(ctx, 'note', '')
        return
    D = Deps(ctx, s, ins, opts)
    W = {}
    prod = []                      # (X, key or None, value, path, run)
    stored = {}
    pathsets = [(k, ps) for k, ps in runs.items() if ps] + [('hook', oc or [])]
    for k, ps in pathsets:
        for p in ps:
            for e in flat(p.eff):
                if e.kind == 'setattr' and norm(e.a[0]) is s and isinstance(e.a[1], str):
                    X = e.a[1]
                    if X in ins or X in opts or X in INTERNAL:
                        continue
                    W[X] = 1
                    prod.append((X, None, norm(e.a[2]), p, k))
                    stored.setdefault(X, []).append(norm(e.a[2]))
                elif e.kind == 'setitem' and norm(e.a[0]).op == 'attr' and norm(e.a[0]).a[0] is s:
                    X = norm(e.a[0]).a[1]
                    if X in ins or X in opts or X in INTERNAL:
                        continue
                    W[X] = 1
                    prod.append((X, norm(e.a[1]), norm(e.a[2]), p, k))
                elif e.kind == 'mut' and norm(e.a[0]).op == 'attr' and norm(e.a[0]).a[0] is s and norm(e.a[0]).a[1] not in INTERNAL:
                    X = norm(e.a[0]).a[1]
                    if X in ins or X in opts:
                        continue
                    W[X] = 1
                    if e.a[1] == 'setdefault' and len(e.a[2]) == 2:
                        prod.append((X, norm(e.a[2][0]), norm(e.a[2][1]), p, k))
    f = ctx.method(cls, 'compute_r' if which == 'r' else 'compute_dr_wrt')
    loc = ctx.fnloc(f)
    n = 0
    for p in runs[which]:
        if p.outcome != 'return' or p.value is None:
            continue
        rd = kept_reads(norm(p.value), s, W)
        for X, key in dict.fromkeys(rd):
            if absent(p, s, X):
                continue
            if key is not None and not any(q[0] == X and q[1] is not None for q in prod) \
                    and any(q[0] == X and not container(q[2]) for q in prod):
                key = None           # an element of a kept array, not an entry of a kept table
            # an attribute that every producer writes together with X is known to be missing: X was never stored
            mine = [q for q in prod if q[0] == X and (q[1] is None) == (key is None) and not container(q[2])]
            if mine and any(absent(p, s, Y) and all(any(e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == Y for e in flat(q[3].eff)) for q in mine)
                            for Y in W if Y != X):
                continue
            n += 1
            cons = '%s kept in %s' % (label, X)
            if not mine:
                if key is None and any(q[0] == X for q in prod):
                    continue
                yield cons, 'und', loc, 'no path found that stores it'
                continue
            pin = pinned(D, p)
            fk, fm = fact_keys(D, p, W, stored)
            sure, maybe = D.key(key) if key is not None else (set(), set())
            sure = sure | fk
            maybe = maybe | fm
            worst = None
            for _, pk, V, q, run in mine:
                if key is not None and run != which and run != 'hook':
                    # an entry made for another input
                    if template(pk, D, run) is template(key, D, which) and template(V, D, run) is not template(V, D, which) \
                            and not any(c in subterms(key) for c in (A(s, which), A(s, run))) and not collide_ok(pk, key):
                        worst = ('bad', 'entries for the inputs "%s" and "%s" are kept under the same key' % (which, run))
                    continue
                if key is not None and pk is not key:
                    continue
                need = D.leaves(V)
                # the decisions that led to the kept thing
                for a, v in q.facts:
                    t = norm(a)
                    if t.op == 'is' and any(A(s, d) in t.a for d in ins) or t.op in ('hasattr', 'isch') or kept_reads(t, s, W):
                        continue
                    if any(norm(a2) is t and v2 == v for a2, v2 in p.facts) or WHICH in subterms(t) or run == 'hook' and not p.facts:
                        continue
                    need |= D.leaves(t)
                for leaf in sorted(need, key=str):
                    if leaf[0] == 'state':
                        continue
                    if covered(leaf, sure) or covered(leaf, pin):
                        continue
                    if leaf[0] == 'node' and key is not None:
                        continue
                    # the hook must see to it
                    left = [h for h in (oc or []) if h.outcome != 'raise' and not drops(h, s, X) and not absent(h, s, X)
                            and not excluded(D, h, leaf)]
                    left = [h for h in left if not covered(leaf, fact_keys(D, h, W, stored)[0])]
                    if oc and not left:
                        continue
                    vague = [h for h in left if covered(leaf, fact_keys(D, h, W, stored)[1])]
                    txt = 'what is kept in "%s" depends on the %s of "%s", but it is used again after that has changed' % (X, WORDS[leaf[0]], leaf[1])
                    if covered(leaf, maybe) or vague or opaque(q.eff) is not None:
                        worst = worst or ('und', txt)
                    elif left and all(odd(h, D, W) for h in left):
                        worst = worst or ('und', txt + ' (the hook decides on something not followed)')
                    else:
                        worst = ('bad', txt)
                if worst and worst[0] == 'bad':
                    break
            if worst is None:
                yield cons, 'ok', loc, 'key or hook determines it'
            else:
                yield cons, worst[0], loc, worst[1]
    if n == 0:
        yield label, 'ok', loc, 'nothing kept is used'


WORDS = {'shape': 'shape', 'size': 'size', 'ndim': 'number of dimensions', 'shape_i': 'shape', 'content': 'contents', 'opt': 'setting', 'node': 'identity'}


def odd(h, D, W):
    """The hook path depends on a condition that is neither about the changed names nor about the existence of kept state."""
    for a, v in h.facts:
        t = norm(a)
        if WHICH in subterms(t) or t.op == 'hasattr':
            continue
        if t.op in ('eq', 'is', 'truth', 'lt', 'le') and (kept_reads(t, D.s, W) or D.leaves(t)):
            # a comparison we could read: judged by fact_keys
            if all(l[0] in ('shape', 'size', 'ndim', 'shape_i', 'opt', 'state') for l in D.leaves(t)):
                continue
        return True
    return False


def container(V):
    return V.op in ('dict', 'list', 'set') and not V.a or V.op == 'call' and 'Dictionary' in show(V.a[0]) or V is NONE


def template(t, D, d):
    """The term with input d replaced by a placeholder."""
    memo = {}
    P = T('sym', '$input')

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'attr' and x.a[0] is D.s and x.a[1] == d:
            r = P
        else:
            r = T(x.op, *[rec(y) for y in x.a])
        memo[x] = r
        return r
    return rec(norm(t))


def collide_ok(a, b):
    """Two keys that differ in a constant."""
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return any(is_c(x) and is_c(y) and x is not y for x, y in zip(a.a, b.a))
    return False


# ---------------------------------------------------------------- containers shared between operations
def shared(ctx):
    """Entries put into containers that exist before any expression does: (addr, key, value, path, effect, class, run, D)."""
    I = ctx.I
    out = []
    for cls in I.chclasses:
        if not ctx.lib_class(cls) or ctx.abstract(cls):
            continue
        s = ctx.inst(cls)
        inputs = I.dterms(cls)
        dyn = () if inputs else ('m0', 'm1')
        ins = inputs or dyn
        D = Deps(ctx, s, ins, [t for t in I.terms(cls) if t not in ins])
        runs = [('value', ctx.r_paths(cls, dyn) if ctx.method(cls, 'compute_r') else None)]
        runs += [(d, ctx.dr_paths(cls, d, (), dyn)) for d in ins]
        for k, ps in runs:
            for p in ps or ():
                for e in flat(p.eff):
                    if e.kind == 'setitem_local' and e.a[0].op == 'ref' and e.a[0].a[0] in I.base.heap:
                        out.append((e.a[0].a[0], norm(e.a[1]), norm(e.a[2]), p, e, cls, k, D))
    return out


def unify(a, b, D1, D2, env, back):
    """Whether two keys of different operations can be equal."""
    if is_c(a) and is_c(b):
        return a is b
    if leafy(a, D1) and leafy(b, D2):
        if a in env or b in back:
            return env.get(a) is b and back.get(b) is a
        env[a] = b
        back[b] = a
        return True
    if a.op in ('tup', 'list') and a.op == b.op:
        return len(a.a) == len(b.a) and all(unify(x, y, D1, D2, env, back) for x, y in zip(a.a, b.a))
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ('cls', 'attr', 'val', 'inst'):
        for x, y in zip(a.a, b.a):
            if isinstance(x, Term) != isinstance(y, Term):
                return False
            if isinstance(x, Term):
                if not unify(x, y, D1, D2, env, back):
                    return False
            elif isinstance(x, tuple) or x != y:
                if x != y:
                    return False
        return True
    return a is b


def maybe_equal(a, b):
    """Whether two keys of one operation can be equal: only numbers and shapes may differ."""
    if a is b:
        return True
    if is_c(a) or is_c(b):
        return False
    if a.op in ('tup', 'list') and a.op == b.op:
        return len(a.a) == len(b.a) and all(maybe_equal(x, y) for x, y in zip(a.a, b.a))
    return a.op == b.op and a.op in ('size', 'ndim', 'shape', 'len')


def leafy(t, D):
    if t.op == 'val' and isinstance(t.a[0], Term):
        t = t.a[0]
    return t.op == 'attr' and t.a[0] is D.s


def mapped(t, env, D1, D2):
    memo = {}

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x not in memo:
            if x in env:
                memo[x] = env[x]
            elif x is D1.s:
                memo[x] = D2.s
            else:
                memo[x] = T(x.op, *[rec(y) for y in x.a])
        return memo[x]
    return rec(t)


def analyse_shared(ctx):
    """Yields (construct, status, loc, message) for every store into a shared container."""
    ents = shared(ctx)
    seen = {}
    for addr, key, V, p, e, cls, run, D in ents:
        cons = '%s.%s shared entry' % (ctx.short(cls), run)
        loc = e.loc
        sure, maybe = D.key(key)
        pin = pinned(D, p)
        need = D.leaves(V)
        worst = None
        if key is NONE:
            continue                 # not a key: such an entry is never asked for again (checked by the read side)
        for leaf in sorted(need, key=str):
            if leaf[0] == 'state':
                continue
            if covered(leaf, sure) or covered(leaf, pin) or leaf[0] == 'node':
                continue
            txt = 'an entry shared by all operations depends on the %s of "%s", which its key does not determine' % (WORDS[leaf[0]], leaf[1])
            if covered(leaf, maybe):
                worst = worst or ('und', txt)
            elif leaf[0] in ('size', 'ndim', 'shape_i') and any(l[0] in ('size', 'ndim', 'shape_i') and l[1] == leaf[1] for l in sure):
                worst = worst or ('und', txt)
            else:
                worst = ('bad', txt)
                break
        if worst is None:
            for a2, k2, V2, p2, e2, c2, run2, D2 in ents:
                if a2 != addr or e2.loc != e.loc:
                    continue
                env, back = {}, {}
                if cls is c2 and run != run2 and run in D.ins and run2 in D.ins:
                    if maybe_equal(key, k2) and V is not V2 and template(V, D, run) is not template(V2, D, run):
                        worst = ('bad', 'entries for the inputs "%s" and "%s" are kept under keys that can be equal' % (run, run2))
                        break
                    continue
                if not unify(key, k2, D, D2, env, back):
                    continue
                if mapped(V, env, D, D2) is V2 or alpha(mapped(V, env, D, D2)) == alpha(V2):
                    continue
                if ops(V) != ops(V2) or mshape(mapped(V, env, D, D2)) is not mshape(V2):
                    worst = ('bad', 'an entry shared by all operations is kept under a key that also stands for a different entry of %s.%s' % (ctx.short(c2), run2))
                    break
                worst = worst or ('und', 'may share a key with %s.%s' % (ctx.short(c2), run2))
        yield (cons,) + ((worst[0], loc, worst[1]) if worst else ('ok', loc, 'its key determines it'))


def mshape(t):
    """The shape a sparse matrix is made with."""
    if t.op == 'sp':
        for x in t.a[1:]:
            for y in (x if isinstance(x, tuple) else x.a):
                if isinstance(y, (tuple, Term)):
                    z = y if isinstance(y, tuple) else y.a
                    if len(z) == 2 and (z[0] == 'shape' or z[0] is C('shape')):
                        return z[1]
    return None


def alpha(t):
    return show(t)


def ops(t):
    """The functions applied in building a thing."""
    return set(x.a[0] for x in subterms(t) if x.op in ('np', 'sp') and isinstance(x.a[0], str))
