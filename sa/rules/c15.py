"""C15: expressions do not influence each other."""
import ast
from ..core import *
from ..track import norm
from ..terms import *
from ..terms import Term, contains
from .. import memo
from . import c10

EXPLAIN = ('Effect analysis of shared state.  Every path of the construction (__new__, __init__) of every class, of the value computation, the change hooks and the '
           'derivative computations, and of all methods and public functions is searched for writes to state that outlives the call and does not belong to one '
           'instance: attributes of classes, module globals, containers made when a module was loaded (module and class level, default arguments, closures), '
           'containers given as arguments.  A class attribute may be written only for the class being set up, with data of that class; an entry of a shared container must be '
           'kept under a key that determines it; what a new node is given (caches, defaults of declared inputs) must be made for it.')

DECL = ('dterms', 'terms', 'term_order')

PROBE = """
from .ch import Ch, Term, depends_on
class Probe(Ch):
    p = Term(default=[1., 2.])
    q = Term(default=Ch(3.))
    opt = Term(default={'k': []}, dr=False)
    @depends_on('p', 'q')
    def dep(self):
        return self.p.r + self.q.r
    def compute_r(self):
        return self.dep
class Flat(Ch):
    dterms = 'p', 'q'
    terms = 'opt',
    def compute_r(self):
        return self.p.r
"""


class Shared(object):
    """What was there when the library was loaded, with names for it."""

    def __init__(self, ctx):
        I = self.I = ctx.I
        self.ctx = ctx
        self.names = {}
        for m, M in I.mods.items():
            self.scan(M.env, m)
        for q, k in I.classes.items():
            self.scan(k.env, q)
        for i in I.fns:
            for d in list(i.defaults or ()) + [v for _, v in i.kwdefaults or ()]:
                if isinstance(d, Term) and d.op == 'ref':
                    self.names.setdefault(d.a[0], 'a default argument of ' + i.qual)

    def scan(self, env, pre):
        for n, v in env.items():
            if isinstance(v, Term) and v.op == 'ref':
                self.names.setdefault(v.a[0], pre + '.' + n)

    def name(self, a):
        return self.names.get(a, 'a container made when the module was loaded')

    def changed(self, p, seen=None):
        """(address, before, after) of shared containers that the path changes, loops included."""
        seen = set() if seen is None else seen
        base = self.I.base.heap
        for a, h in p.st.heap.items():
            if a in base and base[a] != h and a not in seen and base[a][0] in ('dict', 'list', 'set', 'obj'):
                seen.add(a)
                yield a, base[a], h
        for e in p.eff:
            if e.kind == 'loop':
                for q in e.a[0].paths:
                    for x in self.changed(q, seen):
                        yield x


def of_instance(t):
    """The data of an instance or an argument occurs in it."""
    return contains(t, lambda x: x.op in ('sym', 'val', 'inst'))


def reach(I, p, t, seen=None, depth=0):
    """(address, depth) of the containers a value consists of."""
    seen = set() if seen is None else seen
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            for x in t:
                for y in reach(I, p, x, seen, depth):
                    yield y
        return
    if t.op == 'ref':
        a = t.a[0]
        if a in seen:
            return
        seen.add(a)
        h = p.st.heap.get(a)
        if h is None:
            return
        yield a, depth
        if h[0] in ('list', 'set', 'dict'):
            for y in reach(I, p, h[1], seen, depth + 1):
                yield y
    elif t.op in ('tup', 'star'):
        for x in t.a:
            if isinstance(x, Term):
                for y in reach(I, p, x, seen, depth):
                    yield y


def whole(key):
    """The objects a key stands for: it is them, or a tuple of them."""
    key = norm(key)
    if key.op == 'tup':
        out = set()
        for x in key.a:
            out |= whole(x)
        return out
    return set([key])


def leaves(t, out=None):
    """Objects a term is about; the class of an object counts by itself."""
    out = set() if out is None else out
    if isinstance(t, tuple):
        for x in t:
            leaves(x, out)
    elif isinstance(t, Term):
        if t.op in ('sym', 'inst', 'cls', 'val', 'typeof') or t.op == 'attr' and t.a[1] == '__class__':
            out.add(t)
        else:
            leaves(t.a, out)
    return out


def named(t):
    return t.op == 'attr' and t.a[1] in ('__name__', '__qualname__', '__doc__', '__module__') or t.op == 'id' or t.op in (
        'call', 'ccall') and show(t).startswith('id')


def entry(I, p, k, v):
    """Verdict about keeping v under k in a container all instances share."""
    parts = whole(k)
    v = I.freeze(v) if isinstance(v, Term) else v
    inkey = set(x for q in parts for x in subterms(q))
    if any(x.op == 'new' for x in subterms(v)):
        return 'bad', 'is an expression, which all that ask for this key then share'
    bad = und = None
    for x in leaves(v):
        if x in parts or x.op == 'cls' and x not in inkey or x.op == 'val' and x in inkey:
            continue
        if x not in inkey:
            if x.op in ('sym', 'inst', 'val'):
                bad = bad or 'depends on %s, which its key does not mention' % show(x)[:40]
            else:
                und = und or 'may depend on more than its key %s' % show(k)[:40]
            continue
        uses = [q for q in inkey if any(x is y for y in q.a)]
        if uses and all(named(q) for q in uses):
            bad = bad or 'is kept under a name, which others may have'
        else:
            und = und or 'may depend on more than its key %s' % show(k)[:40]
    return ('bad', bad) if bad else ('und', und) if und else ('ok', '')


class Judge(object):
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.I = ctx, rep, ctx.I
        self.sh = Shared(ctx)

    def paths(self, cons, loc, ps, k=None, mine=(), note=''):
        """k: the class being constructed, mine: what belongs to the caller."""
        rep, I = self.rep, self.I
        if ps is None:
            rep.und('shared', cons, loc, note or self.ctx.note)
            return
        n, bad, und = 0, None, None
        for p in ps:
            if p.outcome == 'raise':
                continue
            n += 1
            for verdict, l, m in self.one(p, k, mine):
                if verdict == 'bad':
                    bad = bad or (l, m)
                else:
                    und = und or (l, m)
        rep.count('paths', n)
        if bad:
            rep.bad('shared', cons, bad[0] or loc, bad[1])
        elif und:
            rep.und('shared', cons, und[0] or loc, und[1])
        elif n:
            rep.ok('shared', cons, loc, '%d paths change no state beyond instances, or entries their keys determine' % n)

    def one(self, p, k, mine):
        I, base = self.I, self.I.base.heap
        where = {}
        own = set()
        for e in c10.alleff(p.eff):
            if e.kind == 'setattr':
                own.add((norm(e.a[0]), e.a[1]))
            if e.kind == 'setclsattr':
                for x in self.clsattr(p, e, k):
                    yield x
            elif e.kind == 'setglobal':
                v = I.freeze(e.a[2]) if isinstance(e.a[2], Term) else NONE
                if of_instance(v):
                    yield 'bad', e.loc, 'the global %s is set to data of one expression' % show(e.a[1])
                else:
                    yield 'und', e.loc, 'the global %s is set' % show(e.a[1])
            elif e.kind in ('setitem_local', 'dictpop', 'delitem', 'mut') and isinstance(e.a[0], Term) and e.a[0].op == 'ref':
                if e.a[0].a[0] in base:
                    where.setdefault(e.a[0].a[0], []).append(e)
            elif e.kind in ('mut', 'setitem', 'delitem', 'dictpop', 'aug'):
                o = norm(e.a[0])
                if o.op == 'attr' and o.a[1] in DECL and (norm(o.a[0]), o.a[1]) not in own:
                    yield 'bad', e.loc, 'the declaration %s of the class is changed in place' % o.a[1]
                elif o.op == 'sym' and o not in mine and o.a[0] in self.callers and e.kind != 'aug' and not (
                        e.kind == 'mut' and e.a[1] in ('append', 'add', 'extend') and False):
                    yield 'bad', e.loc, 'the container given as %s is changed' % o.a[0]
        for a, h0, h1 in self.sh.changed(p):
            nm = self.sh.name(a)
            effs = where.get(a, [])
            l = effs[0].loc if effs else None
            if h0[0] == 'dict':
                old = dict((id(x[0]), x[1]) for x in h0[1] if isinstance(x, tuple) and len(x) == 2)
                news = [(x[0], x[1]) for x in h1[1] if isinstance(x, tuple) and len(x) == 2 and old.get(id(x[0])) is not x[1]]
                news += [(e.a[1], e.a[2]) for e in effs if e.kind == 'setitem_local' and not any(y[0] is e.a[1] for y in news)]
                if not news:
                    yield 'und', l, '%s is changed' % nm
                for key, v in news:
                    if a in self.memo and k is None:
                        continue
                    for x in self.registry(p, nm, key, v, k, l, a):
                        yield x
            elif h0[0] in ('list', 'set'):
                news = [x for x in h1[1] if x not in h0[1]]
                if not nm.startswith('a default argument') and h0[0] == 'set' and len(news) == len(h1[1]) - len(h0[1]) and all(x.op in ('cls', 'sym') for x in news if isinstance(x, Term)):
                    continue
                if any(of_instance(I.freeze(x)) for x in news if isinstance(x, Term)) or nm.startswith('a default argument'):
                    yield 'bad', l, '%s, which is made once, collects data of single expressions' % nm
                else:
                    yield 'und', l, '%s is changed' % nm
            else:
                b0 = dict(h0[2])
                if k is not None and any(isinstance(v, Term) and v.op == 'ref' and v.a[0] == a for q in I.mro(k) if q.op == 'cls' and q.a[0] in I.classes for v in I.classes[
                        q.a[0]].env.values()) and all(is_c(v) for n, v in h1[2] if b0.get(n) is not v and isinstance(v, Term)):
                    continue             # a declaration of this class is completed
                ch = [n for n, v in h1[2] if b0.get(n) is not v]
                if any(of_instance(I.freeze(v)) for n, v in h1[2] if b0.get(n) is not v and isinstance(v, Term)):
                    yield 'bad', l, 'an object made when the module was loaded is given data of one expression (%s)' % ', '.join(map(str, ch))
                else:
                    yield 'und', l, 'an object made when the module was loaded is changed (%s)' % ', '.join(map(str, ch))

    callers = ()
    memo = ()

    def registry(self, p, nm, key, v, k, l, a):
        I = self.I
        key = norm(key)
        if k is not None:
            if k in whole(key):
                return
            if any(x.op == 'cls' for x in whole(key)):
                yield 'und', l, '%s: entry of another class' % nm
            elif is_c(key) and isinstance(cv(key), str) and cv(key) in (self.I.classes[k.a[0]].name.split('.')[-1], k.a[0]):
                yield 'bad', l, '%s keeps what belongs to one class under its name, which other classes may have' % nm
            elif key.op in ('id', 'call', 'ccall') and contains(key, lambda x: x is k):
                yield 'und', l, '%s: key %s' % (nm, show(key)[:40])
            else:
                f = I.freeze(v) if isinstance(v, Term) else NONE
                if contains(f, lambda x: x is k) or v is not TRUE and not is_c(f):
                    yield 'bad', l, '%s keeps what belongs to one class under the key %s' % (nm, show(key)[:40])
                else:
                    yield 'und', l, '%s is changed' % nm
            return
        verdict, why = entry(I, p, key, v)
        if verdict == 'bad':
            yield 'bad', l, 'an entry of %s %s' % (nm, why)
        elif verdict == 'und':
            yield 'und', l, 'an entry of %s %s' % (nm, why)

    setup = {}

    def clsattr(self, p, e, k):
        I = self.I
        o, n, v = norm(e.a[0]), e.a[1], e.a[2]
        n = cv(n) if isinstance(n, Term) and is_c(n) else n
        f = I.freeze(v) if isinstance(v, Term) else NONE
        if of_instance(f):
            yield 'bad', e.loc, 'the attribute %s of a class is set to data of one expression' % n
        elif n in DECL:
            if k is None:
                yield 'bad', e.loc, 'the declaration %s of a class is changed outside its set-up' % n
            elif o is not k:
                mine = self.setup.get(o)
                if mine is None or n not in mine:
                    yield 'bad', e.loc, 'setting up %s changes the declaration %s of %s' % (show(k), n, show(o))
                elif mine[n] is not f:
                    yield 'bad', e.loc, 'setting up %s gives %s another declaration %s than its own set-up' % (show(k), show(o), n)
        elif k is not None and o is k:
            pass
        else:
            yield 'und', e.loc, 'the attribute %s of a class is set' % n


def built(ctx, k):
    ps = ctx.run(ctx.method(k, '__new__'), [k])
    return ps


def fresh(ctx, rep, sh, k, ps):
    """What a new node is given is made for it."""
    I = ctx.I
    nm = ctx.short(k)
    loc = ctx.fnloc(ctx.method(k, '__new__'))
    bad = None
    n = 0
    for p in ps:
        if p.outcome == 'raise' or not isinstance(p.value, Term):
            continue
        r = norm(p.value)
        for e in c10.alleff(p.eff):
            if e.kind != 'setattr' or norm(e.a[0]) is not r or not isinstance(e.a[2], Term):
                continue
            held = p.st.attrs.get((r, e.a[1]), e.a[2])
            for a, depth in reach(I, p, held if isinstance(held, Term) else e.a[2]):
                n += 1
                if a in I.base.heap and I.base.heap[a][0] in ('dict', 'list', 'set') and not (depth and I.base.heap[a][0] == 'set'):
                    bad = bad or (e.loc, 'every new node is given the same container as its %s%s' % (e.a[1], ' (within it)' if depth else ''))
    if bad:
        rep.bad('own-state', nm, bad[0] or loc, bad[1])
    else:
        rep.ok('own-state', nm, loc, '%d containers of a new node are made for it' % n)


def defaults(ctx, rep, k, ps):
    """Defaults of declared inputs are copied for each node."""
    I = ctx.I
    loc = ctx.fnloc(ctx.method(k, '__new__'))
    decl = {}
    for p in ps:
        if p.outcome == 'raise':
            continue
        for n in ('p', 'q', 'opt'):
            t = I.classes[k.a[0]].env.get(n)
            if t is None or t.op != 'ref' or I.base.heap[t.a[0]][0] != 'obj':
                rep.und('defaults', n, loc, 'the declaration is not understood')
                continue
            d = dict(I.base.heap[t.a[0]][2]).get('default')
            vals = []
            for e in c10.alleff(p.eff):
                if e.kind == 'setattr' and e.a[1] == n:
                    vals.append((e.loc, e.a[2]))
                elif e.kind == 'vcall' and e.a[1] == 'set':
                    vals += [(e.loc, v) for x, v in e.a[3] if x == n]
                elif e.kind == 'given':
                    vals += [(e.loc, v) for x, v in e.a[1] if x == n]
            decl.setdefault(n, []).append((d, vals, p))
    for n, l in sorted(decl.items()):
        bad, seen = None, 0
        for d, given, p in l:
            if not isinstance(d, Term):
                continue
            for l, v in given:
                seen += 1
                inner = [v]
                h = p.st.heap.get(v.a[0]) if v.op == 'ref' else None
                if h is not None and h[0] == 'obj':
                    inner += [x for _, x in h[2]]
                fv = I.freeze(v)
                if d in inner or d.op != 'ref' and contains(fv, lambda x: x is d) and not contains(fv, lambda x: x.op == 'copyof' and x.a[0] is d and x.a[1] == 'deepcopy'):
                    bad = bad or (l, 'the default of a declared input is used by every node that is not given one, without a copy')
                elif any(a in I.base.heap for a, _ in reach(I, p, v)):
                    bad = bad or (l, 'the default of a declared input is copied, but not what it contains')
                elif d.op != 'ref' and contains(fv, lambda x: x.op == 'copyof' and x.a[0] is d and x.a[1] != 'deepcopy'):
                    bad = bad or (l, 'a default that is an expression is copied without the expressions it consists of')
        if bad:
            rep.bad('defaults', n, bad[0] or loc, bad[1])
        elif seen:
            rep.ok('defaults', n, loc, 'each node gets a copy of its own')
        else:
            rep.und('defaults', n, loc, 'no path was seen that uses the default')


def generator(ctx, rep, q, f, i):
    """A generator that changes a default argument made once."""
    if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(i.node)):
        return
    ds = list(i.defaults or ())
    for a, d in zip(i.node.args.args[len(i.node.args.args) - len(ds):], ds):
        if not (isinstance(d, Term) and d.op == 'ref' and ctx.I.base.heap[d.a[0]][0] in ('list', 'dict', 'set')):
            continue
        none = set()
        for x in ast.walk(i.node):
            if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and isinstance(x.test.left, ast.Name) and x.test.left.id == a.arg and isinstance(
                    x.test.ops[0], (ast.Is, ast.Eq)) and isinstance(x.test.comparators[0], ast.Constant) and x.test.comparators[0].value is None:
                none.update(id(y) for b in x.body for y in ast.walk(b))
        if any(isinstance(x, ast.Name) and x.id == a.arg and isinstance(x.ctx, ast.Store) and id(x) not in none for x in ast.walk(i.node)):
            rep.und('shared', q, ctx.fnloc(f), 'the default of %s may be changed' % a.arg)
            continue
        for x in ast.walk(i.node):
            t = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add', 'extend', 'update', 'insert', 'pop', 'remove', 'clear',
                                                                                                'setdefault', 'discard'):
                t = x.func.value
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                t = x.value
            if isinstance(t, ast.Name) and t.id == a.arg:
                loc = ctx.fnloc(f)
                rep.bad('shared', q, (loc[0], x.lineno, loc[2]), 'the default of %s is made once and collects data of single expressions' % a.arg)


def remembered(ctx, rep):
    """Functions whose results are kept by functools."""
    I = ctx.I
    for m, M in sorted(I.mods.items()):
        if M.tree is None or not ctx.lib_fn(type('F', (), {'mod': m})):
            continue
        for node in ast.walk(M.tree):
            if not isinstance(node, (ast.FunctionDef,)):
                continue
            for d in node.decorator_list:
                t = d.func if isinstance(d, ast.Call) else d
                nm = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else ''
                if nm not in ('lru_cache', 'cache', 'cached_property', 'memoize', 'memoized'):
                    continue
                loc = (I.relpath_of(m) if hasattr(I, 'relpath_of') else M.path.split('/repo/')[-1], node.lineno, node.name)
                made = [c for c in ast.walk(node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and I.is_ch_class(M.env.get(c.func.id, NONE))]
                if made and nm != 'cached_property':
                    rep.bad('shared', m + '.' + node.name, loc, 'returns the same node for every call with the same arguments')
                else:
                    rep.und('shared', m + '.' + node.name, loc, 'its results are kept (%s)' % nm)


def check(ctx, rep):
    I = ctx.I
    J = Judge(ctx, rep)
    news = {}
    for k in [I.ch] + list(I.chclasses):
        if k is not I.ch and not ctx.lib_class(k):
            continue
        news[k] = built(ctx, k)
        for p in news[k] or ():
            for e in c10.alleff(p.eff):
                if e.kind == 'setclsattr' and norm(e.a[0]) is k:
                    J.setup.setdefault(k, {})[e.a[1]] = I.freeze(e.a[2])
    for k, ps in news.items():
        nm = ctx.short(k)
        J.paths(nm + '.__new__', ctx.fnloc(ctx.method(k, '__new__')), ps, k)
        if ps is not None:
            fresh(ctx, rep, J.sh, k, ps)
    # shared stores of the value and derivative computations: their keys must determine the entries
    stores = {}
    rank = {'bad': 2, 'und': 1, 'ok': 0}
    try:
        for cons, st, loc, msg in memo.analyse_shared(ctx):
            if cons not in stores or rank[st] > rank[stores[cons][0]]:
                stores[cons] = (st, loc, msg)
        J.memo = set(x[0] for x in memo.shared(ctx))
    except (Unsupported, Budget, RecursionError) as e:
        rep.und('keys', 'shared entries', None, str(e))
    for cons, (st, loc, msg) in sorted(stores.items()):
        {'bad': rep.bad, 'und': rep.und, 'ok': rep.ok}[st]('keys', cons, loc, msg)
    for k in I.chclasses:
        if not ctx.lib_class(k) or ctx.abstract(k):
            continue
        nm = ctx.short(k)
        f = ctx.method(k, 'compute_r')
        J.paths(nm + '.compute_r', ctx.fnloc(f), ctx.r_paths(k))
        if ctx.own(k, 'on_changed'):
            J.paths(nm + '.on_changed', ctx.fnloc(ctx.method(k, 'on_changed')), ctx.oc_paths(k))
        if ctx.own(k, 'compute_dr_wrt'):
            for d in I.dterms(k):
                J.paths('%s.compute_dr_wrt(%s)' % (nm, d), ctx.fnloc(ctx.method(k, 'compute_dr_wrt')), ctx.dr_paths(k, d))
    for q, f, own, s, ps in c10.subjects(ctx, ('__new__', '__setstate__')):
        i = I.fns[f.a[0]]
        J.callers = tuple(x.arg for x in i.node.args.args) if own is None or i.node.name == '__init__' else ()
        J.paths(q, ctx.fnloc(f), ps)
    J.callers = ()
    for q, f, i in ctx.module_functions():
        # what is left out is the default, made once
        if ctx.lib_fn(i) and any(d.op == 'ref' for d in tuple(i.defaults or ()) + tuple(v for _, v in i.kwdefaults or ()) if isinstance(d, Term)):
            generator(ctx, rep, q, f, i)
            names = [x.arg for x in i.node.args.args][:len(i.node.args.args) - len(i.defaults or ())]
            s = None
            args = [T('sym', n) for n in names]
            if isinstance(i.owner, str) and I.is_ch_class(T('cls', i.owner)) and args:
                s = args[0] = T('inst', T('cls', i.owner), 'self', 'open')
            J.paths(q + ' with defaults', ctx.fnloc(f), ctx.run(f, args, selfterm=s, prim=('compute_r', 'compute_dr_wrt', 'dr_wrt', '_call_on_changed')))
        if ctx.lib_fn(i) and i.owner is None and i.node.name.startswith('_') and I.mods[i.mod].env.get(i.node.name) is f and not i.mod.split('.')[-1].startswith('optimization'):
            J.paths(q, ctx.fnloc(f), ctx.run(f, [T('sym', x.arg) for x in i.node.args.args], prim=('compute_r', 'compute_dr_wrt', 'dr_wrt', '_call_on_changed')))
    remembered(ctx, rep)
    probes(Ctx(ctx.repo, probe=PROBE), rep)
    rep.assume.append('the random number generator of numpy is shared by design')


def probes(ctx, rep):
    I = ctx.I
    J = Judge(ctx, rep)
    ks = [x for x in I.chclasses if ctx.short(x).split('.')[0] == '_probe']
    for k in ks:
        ps = built(ctx, k)
        nm = 'new style' if ctx.short(k).endswith('Probe') else 'old style'
        J.paths('declared %s.__new__' % nm, ctx.fnloc(ctx.method(k, '__new__')), ps, k)
        if ps is None:
            continue
        fresh(ctx, rep, J.sh, k, ps)
        kw = {n: T('sym', 'given', n) for n in ('p', 'opt', 'make_dense')}
        J.paths('declared %s.__new__(inputs and settings)' % nm, ctx.fnloc(ctx.method(k, '__new__')), ctx.run(ctx.method(k, '__new__'), [k], kwargs=kw), k)
        J.paths('declared %s.__new__(in order)' % nm, ctx.fnloc(ctx.method(k, '__new__')), ctx.run(ctx.method(k, '__new__'), [k, T('sym', 'given', 'p')]), k)
        if nm == 'new style':
            defaults(ctx, rep, k, ps)
            s = ctx.inst(k)
            J.paths('depends_on', ctx.fnloc(ctx.method(k, 'compute_r')), ctx.run(ctx.method(k, 'compute_r'), [s], selfterm=s, inline_props=('dep',), attrs={
                (s, 'p'): T('inst', I.ch, 'p'), (s, 'q'): T('inst', I.ch, 'q')}))
