"""C01: values are never stale."""
from ._setattr import *
from ._value import *
from .c03 import stored
from .. import memo
import ast

EXPLAIN = ('Typestate and must-reach analysis over abstract paths: (assign) every path of attribute assignment to an input, option or variable stores '
           'the value and empties what is kept at the node and, through clear_cache, at everything holding it; (spread) clear_cache empties value and '
           'derivatives of the node and of every holder, skipping only nodes already handled under the same mark; (read) the value accessor returns what '
           'is kept only after testing that it is there, and otherwise computes, keeps and returns it; (entry) set, item assignment, replace and '
           'calling with keywords reach a tracked assignment for every name given; (mark) marks that let clear_cache skip nodes are new for every update; '
           '(kept) nothing else an operation keeps for its value outlives what it was computed from; (inputs) every node whose value is read by compute_r '
           'is a declared input.')


# ---------------------------------------------------------------- assignment
def assign_check(p, s, sc, itr=NONE):
    label, c, name, kind, value, facts, old = sc
    cleared = False
    fixed = False
    touched = False
    for e in flat(p.eff):
        if e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] == 'clear_cache':
            args = [norm(x) for x in e.a[2]] + [norm(v) for k, v in e.a[3]]
            m = args[0] if args else NONE
            if m is NONE or m is norm(itr):
                cleared = True
            elif is_c(m):
                fixed = True
            else:
                touched = True
        elif clears_r(e, s) or e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] not in ('_invalidate_cacheprop_names',):
            touched = True
    v = stored(p, s, name)
    if v is None:
        same = any(norm(a).op == 'is' and norm(value) in norm(a).a and A(s, name) in norm(a).a and b for a, b in p.facts)
        if same and kind == 'input':
            return None
        if same:
            return ('bad', 'assigning an object whose contents were changed since it was assigned before has no effect')
        if any(e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == name for e in flat(p.eff)):
            v = norm(value)
        elif touched or any(e.kind in ('setitem', 'mut') for e in flat(p.eff)):
            return ('und', 'no store of the value recognised')
        else:
            return ('bad', 'the value is not stored')
    if not cleared:
        for a, b in p.facts:
            t = norm(a)
            if t.op == 'is' and b and norm(value) in t.a and A(s, name) in t.a:
                if kind == 'input':
                    return None
                return ('bad', 'what is kept is not dropped when the same object is assigned again (its contents may have changed)')
            if t.op in ('eq', 'truth', 'le', 'lt') and any(x is A(s, name) for x in subterms(t)):
                return ('und', 'not dropped under a comparison with the earlier value')
        if kind == 'input' and old is not None and norm(value) is norm(old):
            return None
        if fixed:
            return ('bad', 'the nodes are cleared under a mark that is the same for every assignment')
        if touched:
            return ('und', 'no call of clear_cache recognised')
        return ('bad', 'what was computed from the earlier value is not dropped')
    w = norm(value)
    if v is w or any(t is w for t in subterms(v)) or v.op in ('new', 'inst'):
        return None
    return ('und', 'the stored value is not the one given')


def assign_marked(ctx, rep):
    """The mark given with an assignment reaches clear_cache (or the nodes are cleared without a mark)."""
    for sc in scenarios(ctx):
        ps, loc, s = paths(ctx, sc, ITR)
        if ps is None:
            continue
        for p in ps:
            if p.outcome == 'raise':
                continue
            r = assign_check(p, s, sc, ITR)
            if r and r[0] == 'bad' and opaque(p.eff) is None:
                rep.bad('assign-marked', sc[0], loc, r[1])
                break
        else:
            rep.ok('assign-marked', sc[0], loc, '%d paths' % len(ps))


# ---------------------------------------------------------------- reading
def reading(ctx, rep):
    for c, f in accessors(ctx):
        loc = ctx.fnloc(f)
        s, ps = accessor_paths(ctx, c, f)
        cons = ctx.qual(f)
        if ps is None:
            rep.und('read', cons, loc, ctx.note)
            continue
        worst = None

        def put(st, msg):
            nonlocal worst
            if worst is None or st == 'bad':
                worst = (st, msg)
        seen = set()
        for p in ps:
            if p.outcome == 'raise':
                continue
            if p.value is None:
                put('und', 'no value returned')
                continue
            v = norm(p.value)
            st = state_of(p, s)
            seen.add(st)
            calls = [e for e in flat(p.eff) if e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] == 'compute_r']
            kept = any(t.op == 'item' and t.a[0] is A(s, '_cache') for t in subterms(v))
            if st == 'empty' or st is None and calls:
                if not calls:
                    if kept:
                        put('bad', 'nothing is computed although nothing is kept')
                    else:
                        put('und', 'the value is not computed by compute_r')
                    continue
                if not computed(v):
                    put('bad' if kept and opaque(p.eff) is None else 'und', 'the value computed is not the one returned')
                    continue
                # what is kept for the next read
                put_r = [norm(e.a[2]) for e in flat(p.eff) if e.kind == 'setitem' and norm(e.a[0]) is A(s, '_cache') and norm(e.a[1]) is C('r')]
                if put_r and not computed(put_r[-1]) and put_r[-1] is not NONE:
                    put('bad', 'what is kept is not what was computed')
                continue
            if st == 'full':
                if kept or computed(v):
                    continue
                put('und', 'returned value not recognised')
            else:
                if kept and v.op == 'item' and not p.facts:
                    put('bad', 'a kept value is returned without asking whether it was dropped')
                elif kept:
                    other = [t for a, _ in p.facts for t in subterms(norm(a)) if t.op == 'item' and t.a[0] is A(s, '_cache')]
                    keys = set(t.a[1] for t in other if is_c(t.a[1])) | set(norm(a).a[0] for a, _ in p.facts if norm(a).op == 'in')
                    if keys and C('r') not in keys and not dropped_too(ctx, keys):
                        put('bad', 'a kept value is returned after a test that clearing does not affect')
                    else:
                        put('und', 'the test before returning a kept value is not recognised')
                else:
                    put('und', 'returned value not recognised')
        if worst is None:
            rep.ok('read', cons, loc, '%d paths' % len(ps))
        elif worst[0] == 'bad':
            rep.bad('read', cons, loc, worst[1])
        else:
            rep.und('read', cons, loc, worst[1])


def dropped_too(ctx, keys):
    """Some key tested is emptied by clear_cache."""
    f = ctx.method(ctx.I.ch, 'clear_cache')
    s = T('inst', ctx.I.ch, 'self', 'open')
    ps = ctx.run(f, [s, NONE], selfterm=s) if f is not None else None
    if ps is None:
        return True
    for p in ps:
        for e in flat(p.eff):
            if e.kind == 'setitem' and norm(e.a[1]) in keys:
                return True
            if e.kind in ('mut', 'delitem', 'setattr') and e.kind == 'setattr' and e.a[1] == '_cache':
                return True
            if e.kind in ('delitem',) and norm(e.a[1]) in keys:
                return True
            if e.kind == 'mut' and e.a[1] in ('clear', 'pop', 'update'):
                return True
    return False


# ---------------------------------------------------------------- other ways to change inputs
PROBE = '''
from .ch import Ch

class Probe(Ch):
    dterms = 'p', 'q'
    terms = 'opt',
    def compute_r(self):
        return self.p.r + self.q.r + self.opt

class ProbeAlias(Ch):
    dterms = 'p', 'q'
    terms = 'opt',
    @property
    def q(self):
        return self.p
    @q.setter
    def q(self, value):
        self.p = value
    def compute_r(self):
        return self.p.r
'''


def put_result(rep, rule, cons, loc, worst, n):
    if worst is None:
        rep.ok(rule, cons, loc, '%d paths' % n)
    elif worst[0] == 'bad':
        rep.bad(rule, cons, loc, worst[1])
    else:
        rep.und(rule, cons, loc, worst[1])


def marks(e, s):
    """(name, value, mark) of a tracked assignment to s."""
    if e.kind == 'setattr' and norm(e.a[0]) is s and not e.a[3] and isinstance(e.a[1], str):
        return e.a[1], norm(e.a[2]), norm(e.a[4]) if len(e.a) > 4 and e.a[4] is not None else NONE
    return None


def entry_set(ctx, rep):
    pc = Ctx(ctx.repo, probe=PROBE)
    I = pc.I
    for cname in ('Probe', 'ProbeAlias'):
        cls = [c for c in I.chclasses if pc.short(c).endswith('.' + cname)]
        cls = cls[0] if cls else None
        f = pc.method(cls, 'set') if cls else None
        if f is None:
            rep.und('entry', 'Ch.set', None, 'not found')
            continue
        loc = pc.fnloc(f)
        s = pc.inst(cls)
        vals = [(n, T('sym', 'new_' + n)) for n in ('p', 'q', 'opt')]
        for given in (('p',), ('opt',), ('p', 'opt'), ('q', 'p', 'opt'), ('q',)):
            kw = tuple((n, v) for n, v in vals if n in given)
            ps = pc.run(f, [s], selfterm=s, kwargs=dict(kw), prim=('clear_cache',))
            cons = 'set(%s) on %s' % (', '.join(given), cname)
            if ps is None:
                rep.und('entry', cons, loc, pc.note)
                continue
            worst = None
            for p in ps:
                if p.outcome == 'raise':
                    continue
                left = dict(kw)
                open_ = None
                alias = cname == 'ProbeAlias'
                for e in flat(p.eff):
                    m = marks(e, s)
                    if m is None and e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] == '__setattr__' and len(e.a[2]) >= 2:
                        a = [norm(x) for x in e.a[2]]
                        m = (cv(a[0]), a[1], a[2] if len(a) > 2 else NONE) if is_c(a[0]) else None
                    if m is not None:
                        if left.get(m[0]) is m[1]:
                            del left[m[0]]
                        elif alias and m[0] == 'p' and left.get('q') is m[1]:
                            del left['q']
                        if m[2] is not NONE:
                            open_ = m[2]
                    if e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] == 'clear_cache':
                        a = [norm(x) for x in e.a[2]] + [norm(v) for _, v in e.a[3]]
                        if not a or a[0] is NONE:
                            open_ = None
                st = 'und' if opaque(p.eff) is not None or any(True for _ in loops(p.eff)) else 'bad'
                if left:
                    worst = (st, 'the keyword(s) %s are not assigned' % ', '.join(sorted(left)))
                elif open_ is not None and is_c(open_):
                    worst = (st, 'the node is left with the mark of this update: the next update under that mark is not propagated')
            put_result(rep, 'entry', cons, loc, worst, len(ps))


def entry_setitem(ctx, rep):
    I = ctx.I
    f = ctx.method(I.ch, '__setitem__')
    if f is None:
        rep.und('entry', 'Ch.__setitem__', None, 'not found')
        return
    loc = ctx.fnloc(f)
    s = T('inst', I.ch, 'self')
    key, v = T('sym', 'key'), T('val', T('sym', 'v'))
    ps = ctx.run(f, [s, key, v], selfterm=s, prim=('clear_cache', '_superdot', 'dr_wrt'))
    if ps is None:
        rep.und('entry', 'item assignment to a variable', loc, ctx.note)
        return
    worst = None
    for p in ps:
        if p.outcome == 'raise':
            continue
        ok = False
        for e in flat(p.eff):
            m = marks(e, s)
            if m and m[0] == 'x':
                if m[2] is not NONE and is_c(m[2]):
                    worst = ('bad', 'item assignment is tracked under a fixed mark')
                elif any(t is key or t is norm(key) for t in subterms(m[1])):
                    ok = True
                else:
                    worst = worst or ('und', 'assigned contents not recognised')
        if not ok and worst is None:
            mut = any(e.kind == 'amut' and any(t is A(s, 'x') for t in subterms(norm(e.a[0]))) for e in flat(p.eff))
            clr = any(e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] == 'clear_cache' for e in flat(p.eff))
            if mut and not clr and opaque(p.eff) is None:
                worst = ('bad', 'the contents are changed without an assignment: nothing computed from them is dropped')
            else:
                worst = ('und', 'no tracked assignment found')
    put_result(rep, 'entry', 'item assignment to a variable', loc, worst, len(ps))


def entry_replace(ctx, rep):
    I = ctx.I
    f = ctx.method(I.ch, 'replace')
    if f is None:
        rep.und('entry', 'Ch.replace', None, 'not found')
        return
    loc = ctx.fnloc(f)
    s = T('inst', I.ch, 'self', 'open')
    old, new = T('inst', I.ch, 'old', 'open'), T('inst', I.ch, 'new', 'open')
    ps = ctx.run(f, [s, old, new], selfterm=s, prim=('replace',))
    if ps is None:
        rep.und('entry', 'replace', loc, ctx.note)
        return
    worst = None
    for p in ps:
        if p.outcome == 'raise':
            continue
        Ls = [L for L in loops(p.eff)]
        if not Ls:
            worst = ('und', 'no scan over the inputs recognised')
            continue
        src = set()
        for L in Ls:
            it = norm(L.iter) if L.iter is not None else None
            if it is None:
                continue
            for t in subterms(it):
                if t.op == 'attr' and t.a[0] is s and t.a[1] in ('dterms', 'terms'):
                    src.add(t.a[1])
            for q in L.paths:
                if q.outcome == 'raise':
                    continue
                hit = None
                node = None
                for a, b in q.facts:
                    t = norm(a)
                    if t.op == 'is' and old in t.a:
                        hit = b
                        el = t.a[0] if t.a[1] is old else t.a[1]
                    if t.op == 'isch' or t.op == 'hasattr' and t.a[1] in ('dterms', C('dterms')):
                        node = b
                sets = [e for e in flat(q.eff) if e.kind == 'setattr' and norm(e.a[0]) is s]
                calls = [e for e in flat(q.eff) if e.kind == 'vcall' and e.a[1] == 'replace']
                if q.outcome in ('break', 'return') and hit is not None:
                    worst = ('bad' if opaque(q.eff) is None else 'und', 'the search ends before all inputs were looked at')
                if hit is True:
                    good = [e for e in sets if norm(e.a[2]) is new]
                    if not good:
                        worst = ('bad' if opaque(q.eff) is None else 'und', 'the sub-expression found is not substituted')
                    elif all(e.a[3] for e in good):
                        worst = ('bad', 'the substitution bypasses the tracked assignment')
                elif hit is False and node is True:
                    if not calls:
                        worst = ('bad' if opaque(q.eff) is None else 'und', 'sub-expressions are not searched')
                    elif not all([norm(x) for x in e.a[2]] == [old, new] for e in calls):
                        worst = worst or ('und', 'arguments of the search not recognised')
        if 'dterms' not in src:
            worst = worst or (('und', 'scan not recognised') if not src else ('bad', 'inputs are not searched'))
    put_result(rep, 'entry', 'replace', loc, worst, len(ps))


# ---------------------------------------------------------------- marks of the optimiser
def optimiser_mark(ctx, rep):
    I = ctx.I
    n = 0
    for cls in I.chclasses:
        if not ctx.lib_class(cls) or ctx.own(cls, 'on_changed') is None:
            continue
        s = ctx.inst(cls)
        f = ctx.method(cls, 'on_changed')
        src = ctx.fnloc(f)
        ps = ctx.run(f, [s, T('sym', 'which')], selfterm=s, prim=('clear_cache', 'dr_wrt', '_superdot'))
        if ps is None:
            continue
        worst = None
        rel = 0
        for p in ps:
            if p.outcome == 'raise':
                continue
            news = set()
            for e in p.eff:
                if e.kind == 'setglobal':
                    news.add(norm(e.a[2]))
                if e.kind == 'setattr':
                    news.add(norm(e.a[2]))
            for e in marked(p.eff):
                a = [norm(x) for x in e.a[1]] if e.kind == 'call' else [norm(x) for x in e.a[2]]
                m = a[2] if len(a) > 2 else NONE
                if m is NONE:
                    continue
                rel += 1
                if m in news or any(t in news for t in subterms(m)):
                    continue
                if is_c(m):
                    worst = ('bad', 'inputs are updated under a mark that is not renewed: the change is not propagated to nodes that carry it')
                elif m.op in ('sym',) or any(t.op in ('call', 'ext', 'new') for t in subterms(m)):
                    worst = worst or ('und', 'origin of the mark not followed')
                else:
                    worst = worst or ('und', 'origin of the mark not followed')
            if rel:
                for L in loops(p.eff):
                    for q in L.paths:
                        if not any(True for _ in marked(q.eff)):
                            continue
                        for e in q.eff:
                            if e.kind == 'eval' and any(t.op in ('elem', 'idx', 'item') and any(x is A(s, 'free_variables') for x in subterms(t))
                                                        for t in subterms(norm(e.a[0]))):
                                worst = ('bad', 'a free variable is evaluated between assignments that share one mark: what it keeps is not dropped again')
        if rel:
            n += 1
            put_result(rep, 'mark', ctx.qual(f), src, worst, len(ps))
    if not n:
        rep.ok('mark', 'library', None, 'no marked updates')


def marked(effs):
    for e in flat(effs):
        if e.kind == 'call' and e.a[0].op in ('attr', 'bm') and '__setattr__' in [x for x in e.a[0].a if isinstance(x, str)] and len(e.a[1]) >= 2:
            yield e
        elif e.kind == 'vcall' and e.a[1] == '__setattr__':
            yield e


# ---------------------------------------------------------------- inputs that escape tracking
def untracked(ctx, rep):
    I = ctx.I
    for cls in I.chclasses:
        if not ctx.lib_class(cls) or ctx.abstract(cls) or ctx.method(cls, 'compute_r') is None:
            continue
        s = ctx.inst(cls)
        inputs = I.dterms(cls)
        dyn = () if inputs else ('m0', 'm1')
        ps = ctx.r_paths(cls, dyn)
        f = ctx.method(cls, 'compute_r')
        loc = ctx.fnloc(f)
        if ps is None:
            rep.und('inputs', ctx.short(cls), loc, ctx.note)
            continue
        ins = set(inputs or dyn)
        made = None
        found = set()
        for p in ps:
            for e in flat(p.eff):
                if e.kind == 'eval':
                    o = norm(e.a[0])
                    if o.op == 'attr' and o.a[0] is s and o.a[1] not in ins:
                        found.add(o.a[1])
                elif e.kind == 'read':
                    o = norm(e.a[0])
                    nm = e.a[1]
                    if o.op == 'attr' and o.a[0] is s and o.a[1] not in ins and isinstance(nm, str):
                        if nm == 'r' or node_attr(ctx, nm):
                            found.add(o.a[1])
        bad = []
        for X in sorted(found):
            if added_input(ctx, cls, X) or made_here(ctx, cls, X, dyn):
                continue
            bad.append(X)
        if bad:
            for X in bad:
                rep.bad('inputs', '%s.%s' % (ctx.short(cls), X), loc, 'the value is computed from the node "%s", whose changes are not tracked' % X)
        else:
            rep.ok('inputs', ctx.short(cls), loc, 'every node evaluated is a declared input')


NDATTR = set('T base ctypes data dtype flags flat imag itemsize nbytes ndim real shape size strides copy dot x'.split()) | set(
    n for n in 'all any argmax argmin argsort astype clip copy cumsum diagonal dot fill flatten item max mean min prod ravel repeat reshape round '
               'sort squeeze std sum swapaxes take tolist trace transpose var view keys items values get'.split())


def node_attr(ctx, name):
    """A property that only nodes have."""
    if name in NDATTR or name.startswith('__'):
        return False
    for c in [ctx.I.ch] + list(ctx.I.chclasses):
        if c is not ctx.I.ch and not ctx.lib_class(c):
            continue
        r = ctx.I.class_lookup(c, name)
        if r is not None and r[0].op == 'prop':
            return True
    return False


def made_here(ctx, cls, X, dyn):
    """The operation builds X itself, from its own inputs and options only."""
    I = ctx.I
    s = ctx.inst(cls)
    ins = I.dterms(cls) or dyn
    D = memo.Deps(ctx, s, ins, [t for t in I.terms(cls) if t not in ins])
    got = False
    for ps in (ctx.r_paths(cls, dyn), ctx.oc_paths(cls, dyn) if ctx.own(cls, 'on_changed') else ()):
        for p in ps or ():
            for e in flat(p.eff):
                if e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == X and norm(e.a[2]) is not NONE:
                    got = True
                    if any(l[0] == 'state' for l in D.leaves(e.a[2])):
                        return False
    return got


def added_input(ctx, cls, X):
    """The class declares X as an input of its instances when they are made."""
    I = ctx.I
    for k in I.mro(cls):
        node = I.classes[k.a[0]].node if k.op == 'cls' and k.a[0] in I.classes else None
        if node is None:
            continue
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_dterm' and n.args \
                    and isinstance(n.args[0], ast.Constant) and n.args[0].value == X:
                return True
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Attribute) and t.attr == 'dterms' for t in tg) and any(
                        isinstance(x, ast.Constant) and x.value == X for x in ast.walk(n.value)):
                    return True
    return False


def check(ctx, rep):
    I = ctx.I
    setattr_sweep(ctx, rep, 'assign', assign_check)
    assign_marked(ctx, rep)
    for itr, lab in ((NONE, 'clear_cache()'), (ITR, 'clear_cache(mark)')):
        put_spread(rep, spread(ctx, itr), ('value', 'derivs', 'reach', 'skip'), lab)
    reading(ctx, rep)
    entry_set(ctx, rep)
    entry_setitem(ctx, rep)
    entry_replace(ctx, rep)
    optimiser_mark(ctx, rep)
    untracked(ctx, rep)
    for cls in I.chclasses:
        if not ctx.lib_class(cls) or ctx.abstract(cls):
            continue
        for cons, st, loc, msg in memo.analyse(ctx, cls, 'r'):
            getattr(rep, {'ok': 'ok', 'und': 'und', 'bad': 'bad'}[st])('kept', cons, loc, msg)
