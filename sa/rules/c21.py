"""C21: library operations can be subclassed."""
import ast
import hashlib
from ..core import *
from ..track import norm
from ..terms import *
from ..terms import Term, contains
from ..interp import LoopInfo
from . import c10

EXPLAIN = ('For every operation class a class derived from it without any change is added to the analysed program.  Every method the operation defines is evaluated '
           'symbolically on an instance of each; the two summaries (conditions, outcomes, values and effects of all paths) must be the same up to the name of the class.  Comparisons of '
           'the exact class of a node with an operation class are reported.  The set-up of declarations is evaluated for every declaration style, on its own, after '
           'its base class, before it, and after other classes of the same name; the inputs, options and their order must be those declared.')

DERIVED = 'Derived%dClass'

STYLES = """
from .ch import Ch, Term
class Str(Ch):
    dterms = 'xx'
class Tup(Ch):
    terms = 'kk',
    dterms = 'xx', 'yy'
class Lst(Ch):
    terms = ['kk', 'll']
    dterms = ['yy', 'xx']
class Ordered(Ch):
    terms = 'kk'
    dterms = 'xx', 'yy'
    term_order = 'yy', 'kk', 'xx'
class OnlyTerms(Ch):
    terms = 'kk'
class Nothing(Ch):
    pass
class New(Ch):
    bb = Term()
    aa = Term(default=1.)
    oo = Term(dr=False)
class StrSub(Str):
    pass
class TupSub(Tup):
    pass
class TupMore(Tup):
    dterms = 'xx', 'yy', 'zz'
class OrderedSub(Ordered):
    pass
class OnlyTermsSub(OnlyTerms):
    pass
class NewSub(New):
    pass
class NewMore(New):
    cc = Term()
class NewSubSub(NewMore):
    pass
class Mixed(Nothing):
    dterms = 'uu', 'vv'
class OrderedMore(Ordered):
    dterms = 'xx', 'yy', 'zz'
def first():
    class Twin(Ch):
        dterms = 'xx', 'yy'
        terms = 'kk'
    return Twin
def second():
    class Twin(Ch):
        dterms = 'pp'
    return Twin
def third():
    class Twin(Ch):
        zz = Term()
        nn = Term(dr=False)
    return Twin
TwinA = first()
TwinB = second()
TwinC = third()
"""
#        inputs, options, order (None: any)
EXPECT = {'Str': ('x', '', 'x'), 'Tup': ('xy', 'k', 'kxy'), 'Lst': ('yx', 'kl', 'klyx'), 'Ordered': ('xy', 'k', 'ykx'), 'OnlyTerms': ('', 'k', 'k'), 'Nothing': ('', '', ''),
          'New': ('ba', 'o', 'bao'), 'StrSub': ('x', '', 'x'), 'TupSub': ('xy', 'k', 'kxy'), 'TupMore': ('xyz', 'k', 'kxyz'), 'OrderedSub': ('xy', 'k', 'ykx'),
          'OnlyTermsSub': ('', 'k', 'k'), 'NewSub': ('ba', 'o', 'bao'), 'NewMore': ('bac', 'o', 'baoc'), 'NewSubSub': ('bac', 'o', 'baoc'), 'Mixed': ('uv', '', 'uv'),
          'OrderedMore': ('xyz', 'k', None), 'first.Twin': ('xy', 'k', 'kxy'), 'second.Twin': ('p', '', 'p'), 'third.Twin': ('z', 'n', 'zn')}
BEFORE = {'StrSub': ['Str'], 'TupSub': ['Tup'], 'TupMore': ['Tup', 'TupSub'], 'OrderedSub': ['Ordered'], 'OnlyTermsSub': ['OnlyTerms'], 'NewSub': ['New'],
          'NewMore': ['New', 'NewSub'], 'NewSubSub': ['NewMore', 'New'], 'Mixed': ['Nothing'], 'OrderedMore': ['Ordered', 'OrderedSub'],
          'second.Twin': ['first.Twin', 'third.Twin'], 'third.Twin': ['first.Twin'], 'first.Twin': ['third.Twin', 'second.Twin'],
          'New': ['NewMore'], 'Tup': ['TupMore', 'TupSub'], 'Ordered': ['OrderedSub', 'OrderedMore'], 'Nothing': ['Mixed'], 'Str': ['StrSub', 'Str']}


# ---------------------------------------------------------------- summaries
class Text(object):
    """Terms as digests, the derived class under the name of the operation."""

    def __init__(self, subst):
        self.subst = subst
        self.memo = {}

    def __call__(self, x, depth=0):
        if isinstance(x, Term):
            r = self.memo.get(x)
            if r is None:
                a = [self(y) for y in x.a]
                if x.op in ('eq', 'is'):
                    a.sort()
                r = self.memo[x] = hashlib.md5(('%s|%s' % (x.op, '|'.join(a))).encode()).hexdigest()
            return r
        if isinstance(x, LoopInfo):
            return 'loop' if depth > 6 else '{%s}' % ';'.join(sorted(self.path(p, depth + 1) for p in x.paths))
        if isinstance(x, (tuple, list)):
            return '(%s)' % ','.join(self(y, depth) for y in x)
        s = str(x)
        if self.subst and s.rsplit('.', 1)[-1] == self.subst[0].rsplit('.', 1)[-1]:
            return self.subst[1] if '.' in s else self.subst[1].rsplit('.', 1)[-1]
        return s

    def path(self, p, depth=0):
        eff = [(e.kind, self(tuple(e.a), depth)) for e in p.eff if e.kind not in ('read', 'fact', 'incomp', 'readitem')]
        facts = sorted((self(a), str(v)) for a, v in p.facts)
        return '%s %s if %s doing %s' % (p.outcome, self(p.value) if isinstance(p.value, Term) else '', facts, eff)


def methods(ctx, k):
    """Functions the operation gets from itself or its bases below the root."""
    I = ctx.I
    out = {}
    for c in I.mro(k):
        if c is I.ch or c.op != 'cls' or c.a[0] not in I.classes:
            continue
        for n, v in I.classes[c.a[0]].env.items():
            if isinstance(v, Term) and n not in out:
                if v.op == 'fn':
                    out[n] = v
                elif v.op == 'prop' and isinstance(v.a[0], Term) and v.a[0].op == 'fn':
                    out[n] = v.a[0]
    return out


def summaries(ctx, c, fs):
    """{what: paths} of the methods on an instance of c."""
    I = ctx.I
    s = T('inst', c, 'self')
    out = {}
    for n, f in sorted(fs.items()):
        i = I.fns[f.a[0]]
        names = [x.arg for x in i.node.args.args]
        if n == 'compute_dr_wrt':
            for d in I.dterms(c):
                facts = {mkis(T('attr', s, d), T('attr', s, d2)): False for d2 in I.dterms(c) if d2 != d}
                facts[mkis(T('attr', s, d), s)] = False
                out['compute_dr_wrt(%s)' % d] = ctx.run(f, [s, T('attr', s, d)], selfterm=s, facts=facts), ctx.__dict__.get('note')
            w = T('inst', I.ch, 'other', 'open')
            facts = {mkis(w, s): False}
            for d in I.dterms(c):
                facts[mkis(w, T('attr', s, d))] = False
            out['compute_dr_wrt(another)'] = ctx.run(f, [s, w], selfterm=s, facts=facts), ctx.__dict__.get('note')
        else:
            args = [s] if names and names[0] == 'self' else []
            args += [T('sym', x) for x in names[len(args):]]
            if n == '__new__':
                continue
            out[n] = ctx.run(f, args, selfterm=s, prim=('dr_wrt',)), ctx.__dict__.get('note')
    return out


def operations(ctx, rep):
    ks = [k for k in ctx.I.chclasses if ctx.lib_class(k) and ctx.short(k).count('.') == 1]
    src = 'from .ch import Ch\n'
    for n, k in enumerate(ks):
        mod, name = ctx.short(k).rsplit('.', 1)
        src += 'from .%s import %s as Base%d\nclass %s(Base%d):\n    pass\n' % (mod, name, n, DERIVED % n, n)
    src += 'class RootA(Ch):\n    dterms = "p", "q"\n    terms = "opt",\n    def compute_r(self):\n        return self.p.r\nclass RootB(RootA):\n    pass\n'
    c2 = Ctx(ctx.repo, probe=src)
    I = c2.I
    byname = {c2.short(x): x for x in I.chclasses}
    for n, k in enumerate(ks):
        d = byname.get('_probe.' + DERIVED % n)
        if d is None:
            rep.und('alike', ctx.short(k), None, 'no derived class')
            continue
        compare(c2, rep, byname[ctx.short(k)], d, ctx.short(k), methods(c2, byname[ctx.short(k)]), DERIVED % n)
    slices(c2, rep, byname, ks)
    # the methods of the root, on one operation and a class derived from it
    root = {n: v for n, v in I.classes[I.ch.a[0]].env.items() if isinstance(v, Term) and v.op == 'fn' and n in (
        'sid', '__getstate__', '__setstate__', 'add_dterm', 'copy', 'is_ch_baseclass', '_is_dr_wrt_sliced', 'is_dr_wrt', '_call_on_changed', '__hash__', 'reshape',
        'ravel', 'get_dot', '__float__')}
    p = I.classes[I.ch.a[0]].env.get('sid')
    if p is not None and p.op == 'prop':
        root['sid'] = p.a[0]
    for n in ('r', 'shape', 'size'):
        p = I.classes[I.ch.a[0]].env.get(n)
        if p is not None and p.op == 'prop' and isinstance(p.a[0], Term) and p.a[0].op == 'fn':
            root[n] = p.a[0]
    if '_probe.RootB' in byname:
        compare(c2, rep, byname['_probe.RootA'], byname['_probe.RootB'], 'Ch', root, 'RootB', 'RootA')


def slices(ctx, rep, byname, ks):
    """Derivatives of any operation with respect to a slice, and to one made by a derived class."""
    I = ctx.I
    permute = [k for k in I.chclasses if ctx.short(k).endswith('.Permute')]
    if not permute or '_probe.RootA' not in byname:
        return
    s = T('inst', byname['_probe.RootA'], 'self')
    for m in ('_compute_dr_wrt_sliced', '_is_dr_wrt_sliced', 'is_dr_wrt'):
        f = ctx.method(I.ch, m)
        if f is None:
            continue
        for n, k in enumerate(ks):
            k = byname[ctx.short(k)]
            d = byname.get('_probe.' + DERIVED % n)
            if d is None or not I.is_subclass(k, permute[0]) or k is permute[0]:
                continue
            out = []
            keep = I.loops
            try:
                for c in (k, d):
                    I.loops = list(keep)
                    w = T('inst', c, 'wrt')
                    facts = {mkis(w, s): False, mkis(w, T('attr', s, 'p')): False, mkis(w, T('attr', s, 'q')): False, mkis(T('attr', s, 'p'), T('attr', s, 'q')): False}
                    out.append((ctx.run(f, [s, w], selfterm=s, facts=facts, prim=('compute_dr_wrt', 'dr_wrt', '_call_on_changed')), ctx.__dict__.get('note')))
            finally:
                I.loops = keep
            verdict(ctx, rep, 'Ch.%s(%s)' % (m, ctx.short(k)), ctx.fnloc(f), out[0], out[1], Text(None), Text((d.a[0], k.a[0])))


def compare(ctx, rep, k, d, nm, fs, dname, kname=None):
    I = ctx.I
    keep = I.loops
    try:                                # loops are numbered alike
        I.loops = list(keep)
        a = summaries(ctx, k, fs)
        I.loops = list(keep)
        b = summaries(ctx, d, fs)
    finally:
        I.loops = keep
    ta, tb = Text(None), Text((d.a[0], k.a[0]))
    for what in sorted(a):
        cons = '%s.%s' % (nm, what)
        f = fs[what.split('(')[0]]
        loc = ctx.fnloc(f)
        verdict(ctx, rep, cons, loc, a[what], b.get(what, (None, 'not there')), ta, tb)


def verdict(ctx, rep, cons, loc, a, b, ta, tb):
    (pa, na), (pb, nb) = a, b
    if pa is None and pb is None:
        rep.und('alike', cons, loc, na)
    elif pb is None and 'Recursion' in str(nb):
        rep.bad('alike', cons, loc, 'on an instance of a derived class it calls itself without end')
    elif pa is None or pb is None:
        rep.und('alike', cons, loc, nb)
    else:
        sa, sb = sorted(ta.path(p) for p in pa), sorted(tb.path(p) for p in pb)
        rep.count('paths', len(pa) + len(pb))
        if sa == sb:
            rep.ok('alike', cons, loc, '%d paths, the same for a derived class' % len(sa))
        elif all(p.outcome == 'raise' for p in pb) and any(p.outcome != 'raise' for p in pa):
            rep.bad('alike', cons, loc, 'fails on an instance of a derived class')
        else:
            rep.bad('alike', cons, loc, 'does something else on an instance of a derived class')


# ---------------------------------------------------------------- exact classes
def exact(ctx, rep):
    I = ctx.I
    n = 0
    for m, M in sorted(I.mods.items()):
        if M.tree is None or not ctx.lib_fn(type('F', (), {'mod': m})):
            continue

        def isop(x):
            t = None
            if isinstance(x, ast.Name):
                t = M.env.get(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                o = M.env.get(x.value.id)
                if isinstance(o, Term) and o.op == 'mod' and o.a[0] in I.mods:
                    t = I.mods[o.a[0]].env.get(x.attr)
            elif isinstance(x, (ast.Tuple, ast.List, ast.Set)):
                return any(isop(y) for y in x.elts)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                return None
            return isinstance(t, Term) and t.op == 'cls' and I.is_ch_class(t) and t is not I.ch and ctx.lib_class(t)

        names = set(k.a[0].rsplit('.', 1)[-1] for k in I.chclasses if ctx.lib_class(k))

        def isname(x):
            if isinstance(x, (ast.Tuple, ast.List, ast.Set)):
                return any(isname(y) for y in x.elts)
            return isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in names

        def cls(x, alias):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'type' and len(x.args) == 1:
                return True
            if isinstance(x, ast.Attribute) and x.attr == '__class__':
                return True
            if isinstance(x, ast.Attribute) and x.attr in ('__base__', '__bases__') or isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == '__bases__':
                return cls(x.value if isinstance(x, ast.Attribute) else x.value.value, alias)
            return isinstance(x, ast.Name) and x.id in alias

        def clsname(x, alias):
            return isinstance(x, ast.Attribute) and x.attr in ('__name__', '__qualname__') and cls(x.value, alias)

        for fn in ast.walk(M.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                continue
            alias = set()
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and cls(x.value, ()):
                    alias.add(x.targets[0].id)
            for x in ast.walk(fn):
                q = m[len(I.pkg) + 1:] + '.' + getattr(fn, 'name', '<lambda>')
                loc = (M.path.split('/chumpy/')[-1] and 'chumpy/' + M.path.split('/chumpy/')[-1], getattr(x, 'lineno', 0), q)
                if isinstance(x, ast.Compare):
                    sides = [x.left] + list(x.comparators)
                    if any(cls(y, alias) or clsname(y, alias) for y in sides):
                        n += 1
                        if any(isop(y) for y in sides) or any(clsname(y, alias) for y in sides) and any(isname(y) for y in sides):
                            rep.bad('exact-class', '%s:%s' % (q, ast.unparse(x)[:60]), loc, 'the class of a node is compared with an operation itself: derived classes are left out')
                        else:
                            rep.ok('exact-class', '%s:%s' % (q, ast.unparse(x)[:60]), loc, 'no operation is compared')
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and x.args:
                    n += 1
                    if cls(x.args[0], alias):
                        rep.bad('exact-class', '%s:%s' % (q, ast.unparse(x)), loc, 'super() starts from the class of the instance: for a derived class it finds the same method again')
                    else:
                        rep.ok('exact-class', '%s:%s' % (q, ast.unparse(x)), loc, 'starts from the class the method is written in')
    rep.count('class comparisons', n)


# ---------------------------------------------------------------- declarations
def attr_names(I, p, k, n):
    v = p.st.attrs.get((k, n))
    if v is None:
        r = I.class_lookup(k, n)
        for c in I.mro(k):
            if (c, n) in p.st.attrs:
                v = p.st.attrs[(c, n)]
                break
            if c.op == 'cls' and c.a[0] in I.classes and n in I.classes[c.a[0]].env:
                v = I.classes[c.a[0]].env[n]
                break
        if v is None:
            return None
    if is_c(v) and isinstance(cv(v), str):
        return (cv(v),)
    st = I.st
    I.st = p.st
    try:
        its = I.known_items(v)
    finally:
        I.st = st
    if its is None or not all(is_c(x) for x in its):
        return None
    return tuple(cv(x) for x in its)


def construct_after(ctx, k, before):
    """Paths of constructing k after instances of other classes were constructed."""
    I = ctx.I
    new = ctx.method(k, '__new__')
    ps = None
    st = None
    for c in before + [k]:
        if st is None:
            ps = ctx.run(new, [c])
        else:
            st = st.clone()
            st.eff = []
            I.selfterm, I.steps, I.prim = None, 0, set()
            I.loopdepth, I.stack = 0, []
            try:
                I.st = st
                I.cur = I.newframe({}, None, I.pkg)
                ps = I.explore(lambda: I.call(new, [c], {}), st)
            except (Unsupported, Budget, RecursionError) as e:
                ctx.note = '%s: %s' % (type(e).__name__, e)
                return None
            finally:
                I.st = I.base
        if ps is None:
            return None
        live = [p for p in ps if p.outcome != 'raise']
        if c is not k:
            if len(live) != 1:
                ctx.note = 'construction of %s is not deterministic' % show(c)
                return None if live else ps
            st = live[0].st
    return ps


def styles(ctx, rep):
    c2 = Ctx(ctx.repo, probe=STYLES)
    I = c2.I
    byname = {c2.short(x)[len('_probe.'):]: x for x in I.chclasses if c2.short(x).startswith('_probe.')}
    for nm, want in sorted(EXPECT.items()):
        d, t, order = [None if x is None else tuple(2 * y for y in x) for x in want]
        k = byname.get(nm)
        if k is None:
            rep.und('declared', nm, None, 'probe class not found')
            continue
        loc = c2.fnloc(c2.method(k, 'setup_terms') or c2.method(k, '__new__'))
        for before in [[]] + [BEFORE[nm][:i + 1] for i in range(len(BEFORE.get(nm, [])))]:
            cons = nm + (' after ' + ', '.join(before) if before else '')
            ps = construct_after(c2, k, [byname[x] for x in before])
            if ps is None:
                rep.und('declared', cons, loc, c2.note)
                continue
            live = [p for p in ps if p.outcome != 'raise']
            if not live:
                if any(p.facts for p in ps):
                    rep.und('declared', cons, loc, 'not understood')
                else:
                    rep.bad('declared', cons, ps[0].loc or loc, 'a class declared this way cannot be constructed')
                continue
            bad = und = None
            for p in live:
                rep.count('paths')
                gd, gt, go = attr_names(I, p, k, 'dterms'), attr_names(I, p, k, 'terms'), attr_names(I, p, k, 'term_order')
                if go is None and not d and not t:
                    go = ()
                if gd is None or gt is None or go is None:
                    und = und or 'declarations not understood'
                    continue
                if p.facts and (set(gd), set(gt)) != (set(d), set(t)):
                    und = und or 'under a condition'
                elif set(gd) != set(d):
                    bad = bad or 'the inputs recognised are %s, declared are %s' % (sorted(gd), sorted(d))
                elif set(gt) != set(t):
                    bad = bad or 'the options recognised are %s, declared are %s' % (sorted(gt), sorted(t))
                elif set(go) != set(d) | set(t):
                    bad = bad or 'the names accepted in order are %s' % (go,)
                elif order is not None and go != tuple(order):
                    bad = bad or 'positions are given to %s in the order %s, declared is %s' % (cons, go, tuple(order))
            if bad:
                rep.bad('declared', cons, loc, bad)
            elif und:
                rep.und('declared', cons, loc, und)
            else:
                rep.ok('declared', cons, loc, 'inputs %s, options %s' % (list(d), list(t)))


def check(ctx, rep):
    operations(ctx, rep)
    exact(ctx, rep)
    styles(ctx, rep)
