"""C10: evaluation only computes: values are read-only and data untouched."""
from ..core import *
from ..track import norm
from ..terms import *
from ..terms import Term, contains
from ..interp import Unsupported, Budget
from ._value import *

EXPLAIN = ('Ownership analysis of in-place changes.  Every path of the value computation, the derivative computations (for each input), the change hooks, the '
           'generic derivative methods and the public functions is searched for in-place changes (item and slice assignment, augmented assignment, mutating methods, '
           'replaced data of sparse matrices, mutating numpy functions, container mutation, assignment of inputs).  The memory changed is traced back through views and '
           'shared constructors to its origin: it has to be memory allocated on that path, not a value of a node, an input or option, a result of '
           'another computation or a kept structure.  Every path of the value accessor must return a protected view, with a float64 and '
           'an at-least-one-dimensional conversion between computation and result.')

HARMLESS = ('sort_indices', 'sum_duplicates', 'eliminate_zeros', 'setflags')
SETTERS = ('set', '__setitem__', '__setattr__', '__init__', '__new__', '__setstate__', 'x', 'add_dterm', 'replace', 'remove_redundancy',
           'reset', 'clear_cache')


def alleff(effs, seen=None):
    seen = set() if seen is None else seen
    for e in effs:
        yield e
        if e.kind == 'loop' and id(e.a[0]) not in seen:
            seen.add(id(e.a[0]))
            for q in e.a[0].paths:
                for x in alleff(q.eff, seen):
                    yield x


def sparse(t):
    return t.op == 'sp' or t.op == 'vcall' and t.a[1] in ('dr_wrt', 'compute_dr_wrt') or t.op in ('item', 'mcall')


def origin(I, t, shallow=()):
    """The memory a term's data may share with, followed through views and constructors that share."""
    while True:
        t = norm(I.viewroot(t))
        if t.op == 'np' and t.a[0] == 'copy' and norm(t.a[1][0][1]) in shallow and sparse(norm(t.a[1][0][1])):
            t = t.a[1][0][1]
            continue
        if t.op == 'sp' and t.a[1]:
            a = norm(t.a[1][0][1])
            kw = dict(t.a[1][1:])
            cp = kw.get('copy')
            if t.a[0] in ('csc_matrix', 'csr_matrix', 'coo_matrix', 'bsr_matrix', 'dia_matrix') and cp is not TRUE:
                if a.op not in ('tup', 'list'):
                    if a.op in ('sp', 'spm', 'vcall', 'attr', 'item', 'val'):
                        if a.op == 'val':
                            return t
                        t = a
                        continue
                elif len(a.a) == 3 and t.a[0] in ('csc_matrix', 'csr_matrix') and not any(x.op == 'tup' for x in a.a if isinstance(x, Term)):
                    t = a.a[0]
                    continue
            return t
        if t.op == 'spm' and t.a[1] in ('tocsc', 'tocsr', 'tocoo', 'asformat', 'transpose'):
            t = t.a[0]
            continue
        if t.op == 'np' and t.a[0] in ('array', 'astype') and dict(t.a[1][1:]).get('copy') is FALSE:
            t = t.a[1][0][1]
            continue
        if t.op == 'atom' and len(t.a) == 1 and isinstance(t.a[0], Term):
            t = t.a[0]
            continue
        return t


def whose(I, t, s, names):
    """(verdict, description) for memory with this origin: 'own', 'other', '?'."""
    if t.op in ('val',):
        return 'other', 'the value of %s' % show(t.a[0])
    if t.op == 'attr':
        o, n = t.a[0], t.a[1]
        if n == 'x':
            return 'other', 'the contents of %s' % show(o)
        if o is s and n in names:
            return 'other', 'its input or option %s' % n
        if o.op in ('attr', 'inst', 'item') and o is not s and n in ('idxs', 'weights'):
            return 'other', 'an option of %s' % show(o)
        return '?', show(t)
    if t.op == 'vcall' and t.a[1] in ('dr_wrt', 'lop', 'lmult_wrt', 'compute_dr_wrt', 'r'):
        return 'other', 'a derivative of %s' % show(t.a[0])
    if t.op == 'item':
        b = t.a[0]
        while b.op in ('item',):
            b = norm(b.a[0])
        if b.op == 'attr' and b.a[1] in ('_cache', 'dr_lookup', 'dr_cache', '_bcast_cache'):
            return 'other', 'a kept result (%s)' % b.a[1]
        if b.op == 'val' and not contains(t.a[1], lambda x: x.op in ('np', 'val', 'attr', 'bin', 'sym')):
            return 'other', 'the value of %s' % show(b.a[0])
        if b.op == 'clsattr' or b.op == 'attr' and b.a[0].op in ('cls', 'mod'):
            return 'other', 'structure shared by all instances'
        return '?', show(t)
    if t.op == 'mcall' and t.a[1] in ('get', '__getitem__', 'setdefault'):
        return 'other', 'a kept structure'
    if t.op in ('sym',):
        return 'other', 'its argument %s' % show(t)
    if t.op in ('phi', 'elem', 'objcall', 'call', 'star', 'ccall'):
        return '?', show(t)
    return 'own', ''


def derivative(I, t, s):
    """The term is a matrix that a derivative method has returned or was given, or shares its memory with one."""
    o = origin(I, t)
    if o.op == 'vcall' and o.a[1] in ('dr_wrt', 'lop', 'lmult_wrt', 'compute_dr_wrt'):
        return True
    if o.op == 'item' and o.a[0].op == 'item' and o.a[0].a[0] is T('attr', s, '_cache') and o.a[0].a[1] is C('drs') if s is not None else False:
        return True
    return o.op == 'sym' and o.a[0] in ('lhs', 'rhs') and len(o.a) == 2 and o.a[1] == 'matrix'


def mutations(ctx, effs, s, names):
    I = ctx.I
    shallow = set()
    for e in alleff(effs):
        if e.kind == 'ext' and show(e.a[0]).endswith('copy.copy') and e.a[1]:
            shallow.add(norm(e.a[1][0]))
        elif e.kind == 'amut':
            how = e.a[1]
            if any(how.endswith(h) for h in HARMLESS):
                continue
            o = origin(I, e.a[2] if len(e.a) > 2 else e.a[0], () if how.startswith('attribute ') else shallow)
            v, what = whose(I, o, s, names)
            yield e, v, '%s changes %s in place' % (how, what), o
        elif e.kind in ('aug', 'setitem') and derivative(I, e.a[0], s):
            o = origin(I, e.a[0], shallow)
            yield e, 'other', '%s changes %s in place' % ('inplace %s' % e.a[1] if e.kind == 'aug' else 'item assignment', whose(I, o, s, names)[1]), o
        elif e.kind in ('mut', 'setitem', 'delitem', 'dictpop'):
            o = norm(e.a[0])
            if o.op == 'attr' and o.a[0] is s and o.a[1] in names:
                yield e, 'other', '%s changes its input or option %s' % (e.a[1] if e.kind == 'mut' else e.kind, o.a[1]), o
            elif o.op == 'attr' and o.a[0] is not s and o.a[1] in names and o.a[0].op in ('inst', 'attr') and o.a[0].op != 'cls':
                yield e, '?', show(o), o
        elif e.kind == 'setflag':
            if e.a[1] == 'writeable' and e.a[2] is not FALSE:
                o = origin(I, e.a[0])
                v, what = whose(I, o, s, names)
                yield e, v, 'write protection of %s is lifted' % what, o


def assigned(effs, s, names):
    for e in alleff(effs):
        if e.kind == 'setattr' and e.a[1] in names:
            o = norm(e.a[0])
            if o is s or o.op == 'attr' and o.a[0] is s:
                yield e


def judge(ctx, rep, rule, cons, loc, ps, s, names, inputs=()):
    bad, und = None, None
    n = 0
    for p in ps:
        if p.outcome == 'raise':
            continue
        n += 1
        for e, v, what, o in mutations(ctx, p.eff, s, names):
            if v == 'other':
                bad = bad or (e.loc, what)
            elif v == '?':
                r = origin(ctx.I, p.value) if isinstance(p.value, Term) else None
                if r is o:
                    bad = bad or (e.loc, 'what earlier calls returned (%s) is changed in place' % show(o)[:60])
                else:
                    und = und or (e.loc, 'origin of what is changed in place not known: %s' % show(o)[:60])
        for e in assigned(p.eff, s, inputs):
            bad = bad or (e.loc, 'the evaluation assigns %s' % e.a[1])
    if bad:
        rep.bad(rule, cons, bad[0] or loc, bad[1])
    elif und:
        rep.und(rule, cons, und[0] or loc, und[1])
    else:
        rep.ok(rule, cons, loc, '%d paths change only memory of their own' % n)
    rep.count('paths', n)


def again(ctx, k, f, args, p):
    """What a second, identical evaluation after this one changes of what the first one has put into structures shared by all instances."""
    I = ctx.I
    shared = set()
    for a, h in p.st.heap.items():
        h0 = I.base.heap.get(a)
        if h0 is not None and h0 is not h and h0 != h and h[0] in ('dict', 'list', 'set'):
            for x in h[1]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, Term) and y.op in ('sp', 'np', 'bin', 'upd'):
                        shared.add(norm(y))
    if not shared:
        return None
    st = p.st.clone()
    n0 = len(st.eff)
    try:
        I.st = I.base
        I.prim, I.selfterm, I.steps = set(['dr_wrt']), args[0], 0
        I.cur, I.loopdepth, I.stack = None, 0, []
        I.st = st
        I.cur = I.newframe({}, None, I.pkg)
        ps = I.explore(lambda: I.call(f, list(args), {}), st)
    except (Unsupported, Budget, RecursionError):
        return None
    finally:
        I.st = I.base
    for q in ps:
        shallow = set()
        for e in alleff(q.eff):
            if e.kind == 'ext' and show(e.a[0]).endswith('copy.copy') and e.a[1]:
                shallow.add(norm(e.a[1][0]))
            elif e.kind == 'amut' and not any(e.a[1].endswith(h) for h in HARMLESS):
                o = origin(I, e.a[2] if len(e.a) > 2 else e.a[0], () if e.a[1].startswith('attribute ') else shallow)
                if o in shared:
                    return e.loc, '%s changes structure shared by all instances in place' % e.a[1]
    return False


def classes(ctx, rep):
    I = ctx.I
    for k in I.chclasses:
        if not ctx.lib_class(k) or ctx.abstract(k):
            continue
        s = ctx.inst(k)
        d, t = tuple(I.dterms(k)), tuple(I.terms(k))
        names = set(d) | set(t)
        nm = ctx.short(k)

        def go(what, f, ps, asg=True):
            if f is None:
                return
            if ps is None:
                rep.und('pure', '%s.%s' % (nm, what), ctx.fnloc(f), ctx.note)
                return
            judge(ctx, rep, 'pure', '%s.%s' % (nm, what), ctx.fnloc(f), ps, s, names, names if asg else ())
            if not asg:
                return
            a = [s] if what == 'compute_r' else [s, T('attr', s, what.split('(')[1][:-1].split(',')[0])]
            r = [again(ctx, k, f, a, p) for p in ps if p.outcome != 'raise']
            b = [x for x in r if x]
            if b:
                rep.bad('shared', '%s.%s' % (nm, what), b[0][0], b[0][1])
            elif any(x is False for x in r):
                rep.ok('shared', '%s.%s' % (nm, what), ctx.fnloc(f), 'a second evaluation leaves what the first one put into shared structures as it is')
        go('compute_r', ctx.method(k, 'compute_r'), ctx.r_paths(k))
        if ctx.own(k, 'on_changed'):
            go('on_changed', ctx.method(k, 'on_changed'), ctx.oc_paths(k), False)
        if ctx.own(k, 'compute_dr_wrt'):
            for x in d:
                go('compute_dr_wrt(%s)' % x, ctx.method(k, 'compute_dr_wrt'), ctx.dr_paths(k, x))
            for n, x in enumerate(d):
                for y in d[n + 1:]:
                    go('compute_dr_wrt(%s, also %s)' % (x, y), ctx.method(k, 'compute_dr_wrt'), ctx.dr_paths(k, x, (y,)))


GENERIC = ('dr_wrt', 'lop', 'rop', 'lmult_wrt', 'compute_lop', 'compute_rop', '_compute_dr_wrt_sliced', 'compute_d1', 'compute_d2', 'J', 'sid',
           '__array__', '__float__', '__repr__', '__str__', 'minimize', '_superdot', 'get_dot', 'show_tree', 'tree_iterator', 'floor', 'copy',
           'is_ch_baseclass', '__getitem__', 'reshape', 'ravel')


PROBE = """
from .ch import Ch
class Probe(Ch):
    terms = 'opt',
    dterms = 'p', 'q'
    def compute_r(self):
        return self.p.r
"""


def chainrules(ctx, rep):
    for q, f, i in ctx.module_functions():
        names = [x.arg for x in i.node.args.args]
        if i.owner == ctx.I.ch.a[0] and 'wrt' in names and i.node.name != 'compute_dr_wrt':
            chainrule(ctx, rep, q, f, names[1:])


def chainrule(ctx, rep, q, f, names):
    """The generic derivative methods, on an expression with two inputs."""
    I = ctx.I
    ks = [x for x in I.chclasses if ctx.short(x).endswith('.Probe')]
    if not ks:
        rep.und('pure', q, ctx.fnloc(f), 'no operation to try it on')
        return
    P, Q, w = T('inst', I.ch, 'p'), T('inst', I.ch, 'q'), T('inst', I.ch, 'wrt')
    s = ctx.inst(ks[0])
    base = ['p', 'q', 'opt', '_cache', '_parents', '_dirty_vars', '_itr', '_depends_on_deps']
    for label, held, v in (('', {'p': P, 'q': Q}, w), (' (the variable is an input)', {'p': P, 'q': Q}, P), (' (the variable is both inputs)', {'p': P, 'q': P}, P)):
        objs = list(dict.fromkeys([s, P, Q, w]))
        facts = {mkis(a, b): False for i, a in enumerate(objs) for b in objs[i + 1:]}
        attrs = {(s, n): o for n, o in held.items()}
        args = [s] + [v if n == 'wrt' else T('sym', n, 'matrix') if n in ('lhs', 'rhs') else T('sym', n) for n in names]
        I.closed = {s: base}
        try:
            ps = ctx.run(f, args, selfterm=s, facts=facts, attrs=attrs, prim=('_call_on_changed', 'compute_dr_wrt', 'dr_wrt', 'lmult_wrt', 'lop', 'on_changed',
                                                                              '_is_dr_wrt_sliced', 'is_dr_wrt') + (('_superdot',) if not q.endswith('_superdot') else ()))
        finally:
            I.closed = {}
        if ps is None:
            rep.und('pure', q + label, ctx.fnloc(f), ctx.note)
        else:
            judge(ctx, rep, 'pure', q + label, ctx.fnloc(f), ps, s, set(('p', 'q', 'opt')), set(('p', 'q', 'opt')))


def subjects(ctx, skip=SETTERS, prim=('compute_r', 'compute_dr_wrt', 'dr_wrt', '_call_on_changed')):
    """(name, function, its class, self, paths) of the methods and functions, run on operands about which nothing is known."""
    I = ctx.I
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i) or i.mod.split('.')[-1].startswith('optimization') and not isinstance(i.owner, str):
            continue
        name = q.split('.')[-1]
        if name in skip or '<' in q or i.frame is not None and len(q.split('.')) > 2 and i.owner is None and i.node not in getattr(
                I.mods[i.mod].tree, 'body', ()):
            continue
        names = [x.arg for x in i.node.args.args]
        own = T('cls', i.owner) if isinstance(i.owner, str) else None
        args = []
        if own is not None:
            if not names or name in ('compute_r', 'compute_dr_wrt', 'on_changed') or not I.is_ch_class(own):
                continue
            args = [T('inst', own, 'self', 'open')]
            names = names[1:]
        elif name.startswith('_') or i.node.name not in I.mods[i.mod].env:
            continue
        args += [T('sym', n) for n in names]
        if own is I.ch and 'wrt' in names:
            continue
        s = args[0] if own is not None else None
        yield q, f, own, s, ctx.run(f, args, selfterm=s, prim=prim)


def methods(ctx, rep):
    """Methods and functions on operands about which nothing is known."""
    I = ctx.I
    for q, f, own, s, ps in subjects(ctx):
        if ps is None:
            rep.und('pure', q, ctx.fnloc(f), ctx.note)
            continue
        dn = set(I.dterms(own)) | set(I.terms(own)) if own is not None else set()
        judge(ctx, rep, 'pure', q, ctx.fnloc(f), ps, s, dn, ())


# ---------------------------------------------------------------- the accessor
def chain(t):
    """Wrappers applied to what is returned, outermost first, and what they are applied to."""
    out = []
    t = norm(t)
    while True:
        if t.op == 'np' and t.a[1] and t.a[0] in ('view', 'asarray', 'array', 'atleast_1d', 'astype', 'ascontiguousarray', 'require', 'copy', 'asanyarray',
                                                  'atleast_2d', 'float64', 'squeeze', 'ravel', 'reshape', 'asfarray'):
            out.append((t.a[0], dict(t.a[1][1:]), t))
            t = norm(t.a[1][0][1])
        elif t.op == 'item' and t.a[1].op == 'slice' and all(x is NONE for x in t.a[1].a):
            out.append(('view', {}, t))
            t = norm(t.a[0])
        else:
            return out, t


def is_f64(x):
    return x is not None and (x.op == 'ext' and x.a[0] in ('numpy.float64', 'numpy.float_', 'numpy.double', 'builtins.float') or is_c(x) and cv(x) in ('float64', 'd', 'f8', 'double'))


def given(p):
    """What the comparisons of the path already establish: (is float64, has a dimension)."""
    f64 = dim = False
    for a, v in p.facts:
        a = norm(a)
        if any(t.op == 'attr' and t.a[1] == 'dtype' or t.op == 'dtype' or t.op == 'np' and t.a[0] == 'dtype' for t in subterms(a)) and any(is_f64(t) for t in subterms(a)):
            f64 = True
        if any(t.op in ('shape', 'size', 'ndim', 'len') or t.op == 'attr' and t.a[1] in ('shape', 'ndim') or t.op == 'np' and t.a[0] in ('ndim', 'shape') for t in subterms(a)):
            dim = True
    return f64, dim


def flaws(w, known=(False, False)):
    """What is missing between computation and report."""
    f64 = known[0] or any(n in ('asarray', 'array', 'astype', 'require', 'ascontiguousarray', 'asanyarray') and any(is_f64(x) for x in kw.values()) or n in ('float64', 'asfarray') and (
        n == 'float64' or not kw) for n, kw, t in w)
    dim = known[1] or any(n in ('atleast_1d', 'atleast_2d', 'ravel', 'ascontiguousarray') or n == 'array' and is_c(kw.get('ndmin', NONE)) and cv(kw.get('ndmin', NONE)) not in (None, 0)
              for n, kw, t in w)
    seen_dim = False
    for n, kw, t in w:            # outermost first: nothing outside the conversion may drop the dimension again
        if n == 'squeeze' and not seen_dim:
            dim = False
        if n in ('atleast_1d', 'atleast_2d'):
            seen_dim = True
    out = []
    if not f64:
        out.append('converted to float64')
    if not dim:
        out.append('given at least one dimension')
    return out


def accessor(ctx, rep):
    I = ctx.I
    for c, f in accessors(ctx):
        s, ps = accessor_paths(ctx, c, f)
        loc, q = ctx.fnloc(f), ctx.qual(f)
        if ps is None:
            rep.und('accessor', q, loc, ctx.note)
            continue
        bad, und, n = [], [], 0
        stored = {}
        later = []
        for p in ps:
            if p.outcome == 'raise':
                continue
            n += 1
            prot = {}
            for e in p.eff:
                if e.kind == 'setflag' and e.a[1] == 'writeable':
                    prot[norm(e.a[0])] = True if e.a[2] is FALSE else None if not is_c(e.a[2]) else False
                elif e.kind == 'amut' and e.a[1].endswith('setflags'):
                    prot[norm(e.a[2])] = True
            for e in p.eff:
                if e.kind == 'setitem' and norm(e.a[0]) is A(s, '_cache') and is_c(e.a[1]) and e.a[2] is not NONE:
                    stored.setdefault(cv(e.a[1]), []).append((norm(e.a[2]), prot, e.loc, given(p)))
                elif e.kind == 'setattr' and norm(e.a[0]) is s:
                    stored.setdefault(('attr', e.a[1]), []).append((norm(e.a[2]), prot, e.loc, given(p)))
            lc = p.eff[-1].loc if p.eff else loc
            if not isinstance(p.value, Term):
                continue
            v = norm(p.value)
            w, base = chain(v)
            if base.op == 'vcall' and base.a[1] == 'compute_r':
                one(v, w, prot, lc, bad, und, given(p))
            elif v.op == 'item' and norm(v.a[0]) is A(s, '_cache') and is_c(v.a[1]):
                later.append((cv(v.a[1]), v, lc))
            elif v.op == 'attr' and v.a[0] is s:
                later.append((('attr', v.a[1]), v, lc))
            elif base.op == 'item' and norm(base.a[0]) is A(s, '_cache') and is_c(base.a[1]):
                if prot.get(v) is True and w:
                    later.append((cv(base.a[1]), None, lc))
                elif not prot.get(v):
                    ks = stored.get(cv(base.a[1]))
                    later.append((cv(base.a[1]), v, lc))
                else:
                    und.append((lc, 'not understood: %s' % show(v)[:80]))
            else:
                und.append((lc, 'not understood: %s' % show(v)[:80]))
        for key, v, lc in later:
            if key not in stored:
                und.append((lc, 'what is kept under %s is not stored here' % (key,)))
                continue
            for t, prot, l2, kn in stored[key]:
                w, base = chain(t)
                if base.op != 'vcall':
                    und.append((l2, 'what is kept is not understood: %s' % show(t)[:60]))
                    continue
                if v is None:
                    m = flaws(w, kn)
                    if m:
                        bad.append((l2, 'the value reported is not %s' % ' and not '.join(m)))
                else:
                    one(t, w, prot, l2, bad, und, kn)
        if bad:
            rep.bad('accessor', q, bad[0][0] or loc, bad[0][1])
        elif und:
            rep.und('accessor', q, und[0][0] or loc, und[0][1])
        else:
            rep.ok('accessor', q, loc, '%d paths return a protected float64 view' % n)


def one(v, w, prot, lc, bad, und, kn):
    m = flaws(w, kn)
    if m:
        bad.append((lc, 'the value reported is not %s' % ' and not '.join(m)))
    elif prot.get(v, False) is None:
        und.append((lc, 'whether the value is protected is not understood'))
    elif prot.get(v) is not True:
        bad.append((lc, 'the value reported can be written through'))
    elif not any(n in ('view', 'copy', 'array') for n, kw, t in w[:1]):
        bad.append((lc, "the write protection is put on the array itself, which may be the input's own data"))


def check(ctx, rep):
    accessor(ctx, rep)
    classes(ctx, rep)
    methods(ctx, rep)
    chainrules(Ctx(ctx.repo, probe=PROBE), rep)
    rep.assume.append('numpy and scipy functions change their arguments only where their documentation says so')
