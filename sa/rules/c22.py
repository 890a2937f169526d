"""C22: removing redundancy changes nothing but the amount of work."""
import ast
from ..core import *
from .. import memo
from ..track import norm, A, flat
from ..terms import *
from ..terms import Term, subterms
from .c15 import Shared
from .c01 import made_here, added_input

EXPLAIN = ('The identity an operation is de-duplicated by is evaluated symbolically for every operation class (and for nodes whose inputs are named when they are made): it must '
           'determine the class itself and, by identity, every declared input and option that is present.  Every attribute a value or derivative is computed from must be declared, or be made '
           'by the operation from what is declared.  The replacement is evaluated on a node with two inputs: on every path a node may only be put in the place of another with '
           'the same identity, never a variable, only through tracked assignment, only from what was collected in the same call, and another round is only started after a replacement.')

PROBE = """
from .ch import Ch
class Holder(Ch):
    dterms = 'p', 'q'
    terms = 'opt',
    def compute_r(self):
        return self.p.r + self.q.r
    def compute_dr_wrt(self, wrt):
        return None
def second_round(h):
    return h.remove_redundancy({h.p.sid: h.p, h.q.sid: h.q}, True)
"""

LOSSY = ('str', 'repr', 'len', 'hash', 'typeof', 'fmt', 'bool', 'truth', 'shape', 'size', 'ndim')


def of(t, x):
    return any(y is x for y in subterms(t))


def parts(t, x, out, how=()):
    """How x occurs in t: the operators between the top and x."""
    if t is x:
        out.append(how)
        return
    if isinstance(t, Term):
        for y in t.a:
            parts(y, x, out, how + ((t.op, t.a),))
    elif isinstance(t, tuple):
        for y in t:
            parts(y, x, out, how)


KEEPS = ('tup', 'tupof', 'list', 'listof', 'frozen', 'frozenset', 'id', 'setof', 'sorted', 'dict')


def identity(how):
    """True: the occurrence keeps x apart from every other object; False: certainly not; None: not known."""
    res = True
    for op, a in how:
        if op in KEEPS:
            continue
        if op in LOSSY or op == 'val' or op == 'item' or op == 'attr' and a[1] in ('r', 'x', 'shape', 'size', 'ndim', 'dtype', 'short_name', 'label', '__class__', '__name__'):
            return False
        if op == 'bi' and a and a[0] in ('str', 'repr', 'len', 'hash', 'type', 'bool', 'int', 'float'):
            return False
        if op == 'np':
            return False
        res = None
    return res


def has_class(t, cls, I):
    """How the class shows up: True itself, False only its name, None neither."""
    for y in subterms(t):
        if y is cls or y.op == 'typeof':
            o = []
            parts(t, y, o)
            if any(not any(op == 'attr' for op, _ in h) for h in o):
                return True
    nm = cls.a[0].rsplit('.', 1)[-1] if isinstance(cls.a[0], str) else None
    if any(is_c(y) and cv(y) == nm for y in subterms(t)):
        return False
    if any(y.op == 'attr' and y.a[1] in ('__name__', '__qualname__') for y in subterms(t)):
        return False
    return None


def sid_rule(ctx, rep):
    I = ctx.I
    p = I.classes[I.ch.a[0]].env.get('sid')
    f = p.a[0] if p is not None and p.op == 'prop' else p
    if f is None or f.op != 'fn':
        rep.und('identity', 'Ch.sid', None, 'not found')
        return
    loc = ctx.fnloc(f)
    for k in I.chclasses:
        nm = ctx.short(k)
        if not (ctx.lib_class(k) or nm == '_probe.Holder') or k is I.ch:
            continue
        pr = I.class_lookup(k, 'sid')
        g = pr[0].a[0] if pr is not None and pr[0].op == 'prop' else None
        if g is None or g.op != 'fn':
            rep.und('identity', nm, loc, 'not a property')
            continue
        ins = I.dterms(k)
        dyn = () if ins else ('m0', 'm1')
        s = ctx.inst(k)
        names = [n for n in list(ins or dyn) + list(I.terms(k)) if isinstance(n, str)]
        ps = ctx.run(g, [s], selfterm=s, attrs=ctx.iattrs(k, dyn) if dyn else None)
        if ps is None:
            rep.und('identity', nm, ctx.fnloc(g), ctx.note)
            continue
        judge(ctx, rep, nm, ctx.fnloc(g), ps, k, [(n, A(s, n)) for n in names], s)


def missing(p, n, s):
    """The path knows that the node has no attribute n."""
    for a, v in p.facts:
        t = norm(a)
        if v is False and (t.op == 'in' or t.op == 'hasattr') and any(is_c(y) and cv(y) == n for y in subterms(t)) \
                and (of(t, s)):
            return True
        if t.op == 'hasattr' and v is False and t.a[0] is s and t.a[1] == n:
            return True
    return False


def judge(ctx, rep, nm, loc, ps, k, wanted, s):
    bad = und = None
    n = 0
    partial = any(missing(p, x, s) for p in ps for x, _ in wanted)
    for p in ps:
        if p.outcome != 'return' or not isinstance(p.value, Term):
            continue
        n += 1
        v = norm(p.value)
        c = has_class(v, k, ctx.I)
        if c is False:
            bad = bad or 'the identity holds the name of the class only: operations of different classes of one name are merged'
        elif c is None:
            if any(y.op in ('sym', 'ext', 'call', 'vcall') for y in subterms(v)):
                und = und or 'class not found'
            else:
                bad = bad or 'the identity does not determine the class of the operation'
        for x, t in wanted:
            if missing(p, x, s):
                continue
            o = []
            parts(v, t, o)
            if not o:
                if x in mentioned(p):
                    und = und or 'how "%s" enters is not followed' % x
                else:
                    bad = bad or 'the identity does not depend on "%s": operations that differ in it are merged' % x
                continue
            r = [identity(h) for h in o]
            if True in r:
                if partial and not any(is_c(y) and cv(y) == x for y in subterms(v)):
                    # names absent from a node shift the others
                    bad = bad or 'names are left out when absent, but the identity does not say which are present ("%s")' % x
                continue
            if None in r:
                und = und or 'how "%s" enters is not followed' % x
            else:
                bad = bad or 'the identity depends on a property of "%s" that different objects share' % x
    if bad:
        rep.bad('identity', nm, loc, bad)
    elif und or not n:
        rep.und('identity', nm, loc, und or 'no path returns')
    else:
        rep.ok('identity', nm, loc, 'class and %d declared names by identity on %d paths' % (len(wanted), n))


def mentioned(p):
    """Names that occur in an unresolved comprehension of the value."""
    out = set()
    v = norm(p.value)
    if any(y.op in ('map', 'elem', 'listof', 'star', 'loop', 'call', 'vcall', 'ext', 'sym') for y in subterms(v)):
        for y in subterms(v):
            if y.op == 'elem' or y.op in ('call', 'vcall', 'ext', 'map', 'star'):
                class Any(object):
                    def __contains__(self, x):
                        return True
                return Any()
    return out


# ---------------------------------------------------------------- everything a value depends on is declared
def stores(ctx, X):
    """{attribute: [(function, value, loc)]} written on nodes by the functions of the library that name the attribute."""
    out = {}
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i) or not any(isinstance(n, ast.Attribute) and n.attr == X and isinstance(n.ctx, ast.Store) or isinstance(n, ast.Constant) and n.value == X
                                        for n in ast.walk(i.node)):
            continue
        args = [T('sym', x.arg) for x in i.node.args.args]
        if args and i.node.args.args[0].arg == 'self':
            continue
        ps = ctx.run(f, args)
        for p in ps or ():
            for e in flat(p.eff):
                if e.kind in ('setattr', 'setattr_local', 'initattr') and len(e.a) >= 3 and isinstance(e.a[1], str) and isinstance(e.a[2], Term):
                    out.setdefault(e.a[1], []).append((q, norm(e.a[2]), ctx.fnloc(f)))
    return out


def declared(ctx, rep):
    I = ctx.I
    for cls in I.chclasses:
        if not ctx.lib_class(cls) or ctx.abstract(cls) or ctx.method(cls, 'compute_r') in (None, ctx.method(I.ch, 'compute_r')):
            continue
        s = ctx.inst(cls)
        ins = I.dterms(cls)
        dyn = () if ins else ('m0', 'm1')
        ins = ins or dyn
        opts = [t for t in I.terms(cls) if t not in ins]
        D = memo.Deps(ctx, s, ins, opts)
        f = ctx.method(cls, 'compute_r')
        loc = ctx.fnloc(f)
        found = {}
        unk = None
        for what, ps in [('value', ctx.r_paths(cls, dyn))] + [('derivative for %s' % d, ctx.dr_paths(cls, d, (), dyn)) for d in ins]:
            if ps is None:
                unk = ctx.note
                continue
            for p in ps:
                ts = [p.value] if p.value is not None else []
                ts += [a for a, v in p.facts if norm(a).op != 'hasattr']
                for t in ts:
                    for l in D.leaves(t):
                        if l[0] == 'state':
                            found.setdefault(l[1], set()).add(what)
        bad = und = None
        for X in sorted(found):
            if added_input(ctx, cls, X) or made_here(ctx, cls, X, dyn) or made_alike(ctx, cls, X, dyn, D):
                continue
            if I.class_lookup(cls, X) is not None:
                continue
            init = at_init(ctx, cls, X, list(ins) + list(opts))
            if init is True:
                continue
            if init:
                bad = bad or 'the %s depends on "%s", made from the argument "%s", which is not declared: operations that differ in it are merged' % (
                    ' and '.join(sorted(found[X])), X, init)
                continue
            outside = stores(ctx, X)
            w = [x for x in outside.get(X, ()) if not is_c(x[1]) and x[1] not in (NONE, TRUE, FALSE)]
            if w:
                bad = bad or 'the %s depends on "%s", set from outside (%s) but not declared: operations that differ in it are merged' % (
                    ' and '.join(sorted(found[X])), X, w[0][0])
            else:
                und = und or 'where "%s" comes from was not found' % X
        nm = ctx.short(cls)
        if bad:
            rep.bad('declared', nm, loc, bad)
        elif und or unk:
            rep.und('declared', nm, loc, und or unk)
        else:
            rep.ok('declared', nm, loc, 'values and derivatives depend on declared inputs and options only')


def at_init(ctx, cls, X, names):
    """True: the attribute is made from declared arguments when the node is made; the name of an undeclared one; None: not known."""
    m = ctx.own(cls, '__init__')
    if m is None:
        return None
    s = ctx.inst(cls)
    ar = ctx.I.fns[m.a[0]].node.args
    ps = ctx.run(m, [s] + [T('sym', x.arg) for x in ar.args[1:]], selfterm=s)
    got = set()
    for p in ps or ():
        for e in flat(p.eff):
            if e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == X and isinstance(e.a[2], Term):
                got |= set(y.a[0] for y in subterms(norm(e.a[2])) if y.op == 'sym')
    if not got:
        return None
    rest = [x for x in sorted(got) if x not in names]
    return rest[0] if rest else True


def made_alike(ctx, cls, X, dyn, D):
    """The operation itself keeps X (an attribute or a table), computed from declared things or other things it made."""
    s = ctx.inst(cls)
    ins = ctx.I.dterms(cls) or dyn
    seen = set()
    todo = [X]
    while todo:
        Y = todo.pop()
        if Y in seen:
            continue
        seen.add(Y)
        got = False
        sets = [ctx.r_paths(cls, dyn), ctx.oc_paths(cls, dyn) if ctx.own(cls, 'on_changed') else ()] + [ctx.dr_paths(cls, d, (), dyn) for d in ins]
        for ps in sets:
            for p in ps or ():
                for e in flat(p.eff):
                    if e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == Y and isinstance(e.a[2], Term):
                        v = [e.a[2]]
                    elif e.kind == 'setitem' and norm(e.a[0]) is A(s, Y):
                        v = [x for x in e.a[1:3] if isinstance(x, Term)]
                    elif e.kind == 'mut' and norm(e.a[0]) is A(s, Y):
                        v = [x for x in e.a[2] if isinstance(x, Term)]
                    else:
                        continue
                    got = True
                    for t in v:
                        todo += [l[1] for l in D.leaves(t) if l[0] == 'state']
        if not got and ctx.I.class_lookup(cls, Y) is None and not added_input(ctx, cls, Y):
            return False
    return True


# ---------------------------------------------------------------- the replacement
def canon(t, fd, memo):
    """The term with entries looked up in known tables replaced by what was entered."""
    if isinstance(t, tuple):
        return tuple(canon(x, fd, memo) for x in t)
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is None:
        a = [canon(x, fd, memo) for x in t.a]
        r = T(t.op, *a) if any(x is not y for x, y in zip(a, t.a)) else t
        if r.op == 'item' and isinstance(r.a[0], Term) and r.a[0].op == 'dict':
            for pr in r.a[0].a:
                k, x = pr if isinstance(pr, tuple) else pr.a if isinstance(pr, Term) and len(pr.a) == 2 else (None, None)
                if k is not None and (k is r.a[1] or fd.get(mkeq(k, r.a[1])) is True):
                    r = x
                    break
        memo[t] = r
    return r


def lookups(t, fd, memo):
    """(key entered, key asked for) of the table lookups in the term."""
    for y in subterms(t):
        if y.op == 'item' and isinstance(y.a[0], Term) and y.a[0].op == 'dict':
            key = canon(y.a[1], fd, memo)
            for pr in canon(y.a[0], fd, memo).a:
                k = pr[0] if isinstance(pr, tuple) else pr.a[0] if isinstance(pr, Term) and len(pr.a) == 2 else None
                if k is not None and (k is key or fd.get(mkeq(k, key)) is True):
                    yield k, key


def plain(t, node):
    """Does the evidence contain the whole identity of the node?"""
    sid = A(node, 'sid')
    o = []
    parts(t, sid, o)
    res = [identity(h) for h in o]
    if True in res:
        return True
    if not o:
        if of(t, node):
            return None if any(y.op in ('map', 'elem', 'star', 'call', 'vcall', 'typeof') for y in subterms(t)) else False
        return None
    return False if all(r is False for r in res) else None


def replacing(ctx, rep):
    I = ctx.I
    byname = {ctx.short(c): c for c in I.chclasses}
    k = byname.get('_probe.Holder')
    m = ctx.method(I.ch, 'remove_redundancy')
    if k is None or m is None:
        rep.und('replace', 'remove_redundancy', None, 'not found')
        return
    loc = ctx.fnloc(m)
    s = ctx.inst(k)
    P, Q = A(s, 'p'), A(s, 'q')
    sh = Shared(ctx)
    again = next((f for q, f, i in ctx.module_functions() if q.endswith('second_round') and i.mod.endswith('_probe')), None)
    for f in (m, again):
        if f is None:
            continue
        ps = ctx.run(f, [s], selfterm=s, facts={} if f is m else {mkis(P, Q): False, mkeq(A(P, 'sid'), A(Q, 'sid')): False})
        if ps is None:
            rep.und('replace', 'remove_redundancy', loc, ctx.note)
            continue
        verdict = {'same': [None, None, 0], 'variables': [None, None, 0], 'tracked': [None, None, 0], 'ends': [None, None, 0], 'source': [None, None, 0]}

        def say(r, bad=None, und=None):
            x = verdict[r]
            x[2] += 1
            x[0] = x[0] or bad
            x[1] = x[1] or und
        for p in ps:
            if p.outcome not in ('return', 'raise'):
                continue
            fd = {norm(a): v for a, v in p.facts}
            mm = {}
            fd.update([(canon(a, fd, mm), v) for a, v in fd.items()])
            mm = {}
            cur = {'p': P, 'q': Q}           # which original node each name holds
            stored = 0
            for a, h0, h1 in sh.changed(p):
                if mentions(h1, (P, Q)):
                    say('source', 'the nodes met are collected in %s, which outlives the call: it holds nodes of other expressions, and identities of objects that are gone' % sh.name(a))
            for e in flat(p.eff):
                if e.kind in ('rcall', 'vcall') and (e.kind == 'vcall' and e.a[0] is s and e.a[1] == 'remove_redundancy' or e.kind == 'rcall' and e.a[0] is m and of(tup(list(e.a[1])), s)):
                    again = stored or any(v and t.op == 'truth' and any(y.op == 'vcall' and 'remove_redundancy' in y.a for y in subterms(t)) for t, v in fd.items())
                    if again:
                        say('ends')
                    else:
                        say('ends', 'another round is started although nothing was replaced')
                if e.kind == 'setitem' and norm(e.a[0]).op == 'attr' and norm(e.a[0]).a[1] == '__dict__' and norm(e.a[0]).a[0] in (s, P, Q):
                    say('tracked', 'an input is replaced behind the back of the tracking: changes of the new node do not reach the expression')
                    continue
                if e.kind != 'setattr':
                    continue
                o = norm(e.a[0])
                if o in (P, Q):
                    say('tracked', und='an attribute of an input is stored')
                    continue
                if o is not s:
                    continue
                d = e.a[1] if isinstance(e.a[1], str) else None
                if d not in ('p', 'q'):
                    say('same', und='"%s" is stored' % (d if d else '?'))
                    continue
                raw = len(e.a) > 3 and e.a[3] in (True, 'True')
                if raw:
                    say('tracked', 'an input is replaced behind the back of the tracking: changes of the new node do not reach the expression')
                else:
                    say('tracked')
                N = canon(norm(e.a[2]), fd, mm)
                stored += 1
                if N not in (P, Q):
                    src = loadtime(I, e.a[2])
                    if src:
                        say('source', 'nodes are taken from a table that outlives the call (%s): it holds nodes of other expressions, and identities of objects that are gone' % src)
                    else:
                        say('same', und='what is stored is not followed')
                    continue
                say('source')
                O = cur[d]
                if N is O:
                    stored -= 1
                    say('same')
                    continue
                cur[d] = N
                evs = [(k, x) for k, x in lookups(norm(e.a[2]), fd, mm) if of(k, N) and of(x, O)]
                for t, v in fd.items():
                    if v is True and t.op in ('eq', 'is', 'in') and of(t, O) and of(t, N):
                        evs.append(tuple(t.a[:2]))
                good = [min3(plain(x, O if of(x, O) else N), plain(y, N if of(y, N) else O)) for x, y in evs]
                if True in good:
                    say('same')
                elif evs and all(g is False for g in good):
                    say('same', 'a node is replaced by another although only part of their identities was compared')
                elif not evs:
                    say('same', 'a node is replaced by another whose identity was not compared')
                else:
                    say('same', und='what was compared is not followed')
                if any(varfact(I, t, v, O) or varfact(I, t, v, N) for t, v in fd.items()):
                    say('variables')
                else:
                    say('variables', 'a variable may be replaced by another that holds the same array now')
        for r, (bad, und, n) in sorted(verdict.items()):
            if bad:
                rep.bad('replace', r, loc, bad)
            elif und:
                rep.und('replace', r, loc, und)
            else:
                rep.ok('replace', r, loc, '%d occurrences on %d paths' % (n, len(ps)))
        rep.count('replacement_paths', len(ps))


def mentions(h, xs):
    if isinstance(h, Term):
        return any(of(h, x) for x in xs)
    if isinstance(h, (tuple, list)):
        return any(mentions(x, xs) for x in h)
    return False


def min3(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def varfact(I, t, v, node):
    """A decision on whether the node is a variable."""
    if not of(t, node):
        return False
    for y in subterms(t):
        if y.op == 'vcall' and y.a[0] is node and y.a[1] == 'is_ch_baseclass':
            return v is False
        if y.op == 'typeof' and of(y, node) or y.op == 'attr' and y.a[1] == '__class__' and y.a[0] is node or y.op in ('isinst', 'isch'):
            return True
        if y.op == 'attr' and y.a[0] is node and y.a[1] in ('dterms', 'compute_r', 'compute_dr_wrt'):
            return t.op != 'hasattr'
    return False


def loadtime(I, t):
    for y in subterms(norm(t)):
        if y.op in ('ldef', 'default', 'glob', 'gref', 'cattr'):
            return y.op
        if y.op == 'ref' and isinstance(y.a[0], int) and y.a[0] < getattr(I, 'nloadheap', 0):
            return 'container made when the module is loaded'
        if y.op == 'attr' and isinstance(y.a[0], Term) and y.a[0].op == 'cls':
            return 'class attribute "%s"' % y.a[1]
    return None


def check(ctx, rep):
    c2 = Ctx(ctx.repo, probe=PROBE)
    sid_rule(c2, rep)
    declared(ctx, rep)
    replacing(c2, rep)
    rep.assume += ['an object that is reachable keeps its identity; identities compared are those of objects alive during one call',
                   'attributes put on a node by user code, outside the declared inputs and options, are not inputs of the library operations']
