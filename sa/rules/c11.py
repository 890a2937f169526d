"""C11: pickling and copying preserve a graph and leave the original alone."""
import ast
from ..core import *
from ..track import norm, A, opaque
from ..terms import *
from ..terms import Term, contains
from .c10 import alleff
from . import c03

EXPLAIN = ('Effect analysis of taking and restoring the state.  For each operation class every path of the state method that class uses is abstracted to what it '
           'makes of each instance attribute: kept, dropped, or replaced by what; every path of the restoring method to what it puts back.  Against '
           'all attributes that the constructor and the evaluation methods store or read it is decided: nothing that cannot be pickled stays in the state; nothing dropped is '
           'needed later without being restored or re-created; what is replaced still carries the old content; attributes that are changed in place are not shared; the original is not '
           'changed; every declared input registers again; the class can be found again under its name and created without arguments; copying is a full pickle round trip or deep copy.')

HOOKS = ('__reduce__', '__reduce_ex__', '__copy__', '__deepcopy__', '__getnewargs__', '__getnewargs_ex__')
CONS = ('dict', 'opendict', 'set', 'list', 'tup')


def cond_drops(conds, elem, every, sets):
    """Names a comprehension over the attributes leaves out, or None when its condition is not understood."""
    def atom(a, n):
        if a.op in ('eq', 'is') and a.a[0] is elem and is_c(a.a[1]):
            return cv(a.a[1]) == n
        if a.op in ('eq', 'is') and a.a[1] is elem and is_c(a.a[0]):
            return cv(a.a[0]) == n
        if a.op == 'in' and a.a[0] is elem:
            b = norm(a.a[1])
            if b.op in ('tup', 'list', 'set') and all(is_c(x) for x in b.a):
                return n in [cv(x) for x in b.a]
            if b.op == 'attr' and b.a[1] in sets:
                return n in sets[b.a[1]]
        t = a.a[0] if a.op == 'truth' else a
        if t.op == 'mcall' and t.a[0] is elem and t.a[1] in ('startswith', 'endswith') and t.a[2] and all(is_c(x) for x in t.a[2]):
            return getattr(n, t.a[1])(*[cv(x) for x in t.a[2]])
        raise LookupError
    out = set()
    try:
        for n in every:
            if not any(all(atom(a, n) == v for a, v in conj) for conj in conds):
                out.add(n)
    except LookupError:
        return None
    return out


def root_of(t, D, every, sets):
    """(how, names dropped at once) for the expression the state is made from."""
    t = norm(t)
    if t is D:
        return 'alias', set()
    if t.op == 'copyof':
        b = norm(t.a[0])
        how = 'deep' if len(t.a) > 1 and t.a[1] == 'deepcopy' else 'copy'
        if b is D:
            return how, set()
        if b.op in ('copyof', 'map', 'dictof'):
            r = root_of(b, D, every, sets)
            return r if r is None or r[0] != 'alias' else (how, r[1])
    if t.op == 'dictof':
        b = norm(t.a[0])
        if b is D:
            return 'copy', set()
        return root_of(b, D, every, sets)
    if t.op == 'listof':
        return root_of(t.a[0], D, every, sets)
    if t.op == 'map' and len(t.a) >= 4:
        it = t.a[0]
        while it.op == 'listof':
            it = it.a[0]
        if it.op != 'dictitems' or norm(it.a[0]) is not D or t.a[2].op != 'tup' or len(t.a[2].a) != 2 or t.a[2] is not t.a[1]:
            return None
        c = t.a[3]
        if c is TRUE or c is True:
            return 'copy', set()
        if isinstance(c, Term) and c.op == 'conds':
            d = cond_drops(c.a[0], t.a[2].a[0], every, sets)
            if isinstance(d, set):
                return 'copy', d
    return None


class State(object):
    def __init__(self):
        self.how = None          # alias / copy / deep / listed
        self.dropped = set()
        self.absent = set()
        self.given = {}          # name -> term put in its place
        self.why = None          # why the state is not understood
        self.loc = None


def state(ctx, s, p, every, declared):
    """What one path of a state method makes of the attributes."""
    D = A(s, '__dict__')
    r = State()
    v = p.value
    if not isinstance(v, Term):
        r.why = 'no state'
        return r
    if v.op == 'ref':
        h = p.st.heap.get(v.a[0])
        if h is None or h[0] != 'dict' or h[2] or not all(is_c(k) for k, _ in h[1]):
            r.why = 'the state is put together in a way that is not understood'
            return r
        r.how = 'listed'
        r.given = {cv(k): x for k, x in h[1]}
        return r
    v = norm(v)
    ro = root_of(v, D, every, dict((x, set(getattr(ctx.I, x)(s.a[0])) | declared.get(x, set())) for x in ('dterms', 'terms')))
    if ro is None:
        r.why = 'not made from the attributes in a way that is understood: %s' % show(v)[:60]
        return r
    r.how, r.dropped = ro[0], set(ro[1])
    for e in p.eff:
        if not e.a or not isinstance(e.a[0], Term) or norm(e.a[0]) is not v:
            if e.kind == 'loop':
                for x in alleff([e]):
                    if x.kind in ('setitem', 'delitem', 'mut', 'dictpop') and norm(x.a[0]) is v:
                        r.why = 'the state is changed in a loop'
            continue
        if e.kind == 'delitem' and is_c(e.a[1]):
            r.dropped.add(cv(e.a[1]))
            r.given.pop(cv(e.a[1]), None)
        elif e.kind == 'mut' and e.a[1] == 'pop' and e.a[2] and is_c(e.a[2][0]):
            r.dropped.add(cv(e.a[2][0]))
            r.given.pop(cv(e.a[2][0]), None)
        elif e.kind == 'setitem' and is_c(e.a[1]):
            r.given[cv(e.a[1])] = e.a[2]
            r.dropped.discard(cv(e.a[1]))
        elif e.kind in ('delitem', 'mut', 'setitem', 'dictpop', 'call', 'amut'):
            r.why = 'the state is changed in a way that is not understood (%s)' % e.kind
        r.loc = e.loc
    for a, val in p.facts:          # an attribute known to be absent needs no dropping
        if a.op == 'in' and not val and is_c(a.a[0]) and (a.a[1] is v or a.a[1].op == 'at' and norm(a.a[1].a[0]) is v):
            r.absent.add(cv(a.a[0]))
    return r


def spoils(effs, s):
    """Effects on the object itself while its state is taken."""
    D = A(s, '__dict__')
    for e in alleff(effs):
        if e.kind == 'setattr' and norm(e.a[0]) is s:
            yield e, str(e.a[1])
        elif e.kind in ('setitem', 'delitem', 'mut', 'dictpop', 'amut'):
            o = norm(e.a[0])
            if o is D:
                if e.kind == 'mut' and e.a[1] in ('get', 'items', 'keys'):
                    continue
                yield e, show(e.a[1]) if isinstance(e.a[1], Term) else str(e.a[2][0]) if e.kind == 'mut' and len(e.a) > 2 and e.a[2] else str(e.a[1])
                continue
            b = o
            n = None
            while b.op in ('item', 'attr', 'elem', 'mcall') and b.a and isinstance(b.a[0], Term):
                if b.op == 'attr' and b.a[0] is s:
                    n = b.a[1]
                    break
                c = norm(b.a[0])       # an entry of a shallow copy of the attributes is the attribute's value itself
                if c.op == 'at':
                    c = norm(c.a[0])
                key = b.a[1] if b.op == 'item' else b.a[2][0] if b.op == 'mcall' and b.a[1] in ('pop', 'get') and b.a[2] else None
                if c.op == 'copyof' and norm(c.a[0]) is D and (len(c.a) < 2 or c.a[1] != 'deepcopy') and isinstance(key, Term) and is_c(key):
                    n = cv(key)
                    break
                if b.op == 'mcall':
                    break
                b = b.a[0]
            if n is not None and n != '_cache':
                yield e, n


def depth(t, a, orig):
    """How many levels of container are new in t, made from attribute a (None: not understood, -1: not made from it)."""
    t = norm(t) if isinstance(t, Term) else t
    if t is a or t.op == 'item' and is_c(t.a[1]) and a.op == 'attr' and cv(t.a[1]) == a.a[1]:
        return 0
    if t.op == 'at':
        return depth(t.a[0], a, orig)
    if t.op in ('copyof', 'setof', 'listof', 'dictof'):
        if t.op == 'copyof' and len(t.a) > 1 and t.a[1] == 'deepcopy':
            return 9
        b = t.a[0]
        if b.op == 'map':
            return depth(b, a, orig)
        d = depth(b, a, orig)
        return None if d is None else max(d, 1)
    if t.op == 'np' and t.a[0] in ('copy', 'array') or t.op == 'mcall' and t.a[1] == 'copy':
        b = t.a[1][0][1] if t.op == 'np' else t.a[0]
        d = depth(b, a, orig)
        return None if d is None else max(d, 1)
    if t.op == 'map':
        it = t.a[0]
        while it.op in ('listof',):
            it = it.a[0]
        if it.op in ('dictitems', 'dictkeys') and depth(it.a[0], a, orig) == 0 and t.a[2].op == 'tup' and len(t.a[2].a) == 2:
            e = t.a[2].a[1]
            if e.op in ('copyof', 'dict', 'dictof', 'setof', 'listof', 'set', 'list') or e.op == 'np' and e.a[0] in ('copy', 'array') or e.op == 'mcall' and e.a[1] == 'copy':
                return 9 if e.op == 'copyof' and len(e.a) > 1 and e.a[1] == 'deepcopy' else 2
            if e.op in ('item', 'elem', 'attr'):
                return 1
        return None
    if t.op in ('opendict', 'phi', 'ecall', 'ccall', 'call', 'mcall', 'ref', 'star', 'fold'):
        return None
    if t.op in CONS or is_c(t):
        return -1 if not contains(t, lambda x: x is a) else 1
    return None


class Needs(object):
    """Attributes the methods of a class store, read without a guard, and change in place."""

    def __init__(self, ctx, k, s):
        self.sets, self.reads, self.inplace, self.unpick = {}, {}, {}, {}
        self.s, self.ctx, self.k = s, ctx, k
        self.declared = {}

    def add(self, ps, what):
        s = self.s
        for p in ps or ():
            self.path(p.eff, set(), what)

    def path(self, effs, have, what):
        s = self.s
        for e in effs:
            o = e.a[0] if e.a and isinstance(e.a[0], Term) else None
            if e.kind == 'fact':
                if e.a[0].op == 'hasattr' and e.a[1] and e.a[0].a[0] is s:
                    have.add(e.a[0].a[1] if isinstance(e.a[0].a[1], str) else cv(e.a[0].a[1]))
                elif e.a[0].op == 'in' and e.a[1] and is_c(e.a[0].a[0]) and any(x is A(s, '__dict__') for x in subterms(e.a[0])):
                    have.add(cv(e.a[0].a[0]))
            elif e.kind == 'setattr' and norm(o) is s and isinstance(e.a[1], str):
                have.add(e.a[1])
                self.sets.setdefault(e.a[1], e.loc)
            elif e.kind == 'unpicklable' and norm(o) is s:
                self.unpick.setdefault(e.a[1], (e.loc, e.a[2]))
            elif e.kind == 'read' and norm(o) is s:
                if e.a[1] not in have:
                    self.reads.setdefault(e.a[1], (e.loc, what))
            elif e.kind == 'loop':
                for q in e.a[0].paths:
                    self.path(q.eff, set(have), what)
            if e.kind in ('setitem', 'delitem', 'mut', 'dictpop') and not (e.kind == 'mut' and e.a[1] in ('get', 'items', 'keys', 'values')):
                b, n = norm(o), 0
                while b.op in ('item', 'elem', 'at') and b.a and isinstance(b.a[0], Term) and n < 6:
                    if b.op != 'at':
                        n += 1
                    b = norm(b.a[0])
                while b.op in ('listof', 'dictitems', 'dictvalues') and isinstance(b.a[0], Term):
                    b = norm(b.a[0])
                if e.kind == 'setitem' and n == 0 and not (is_c(e.a[1]) and isinstance(cv(e.a[1]), str)):
                    continue          # an entry of a store with keys: whether its entries are valid for their keys is C02
                if b.op == 'attr' and b.a[0] is s and isinstance(b.a[1], str):
                    x = self.inplace.get(b.a[1])
                    if x is None or x[0] < n + 1:
                        self.inplace[b.a[1]] = (n + 1, e.loc)


def gather(ctx, k, s, common):
    I = ctx.I
    n = Needs(ctx, k, s)
    f = ctx.method(k, '__new__')
    new = ctx.run(f, [k]) if f is not None else None
    for p in new or ():
        if p.outcome != 'raise' and isinstance(p.value, Term):
            made = p.value
            for e in alleff(p.eff):
                if e.kind in ('setattr', 'unpicklable') and norm(e.a[0]) is norm(made) and isinstance(e.a[1], str):
                    if e.kind == 'setattr':
                        n.sets.setdefault(e.a[1], e.loc)
                        n.new = getattr(n, 'new', {})
                        n.new[e.a[1]] = e.a[2]
                    else:
                        n.unpick.setdefault(e.a[1], (e.loc, e.a[2]))
    n.newpaths = new
    n.add(ctx.r_paths(k), 'compute_r')
    n.add(ctx.oc_paths(k), 'on_changed')
    n.made = set()           # what the change hook, which runs first after restoring, creates when it is not there
    for p in ctx.oc_paths(k) or ():
        absent = set(a.a[1] for a, v in p.facts if a.op == 'hasattr' and not v and a.a[0] is s)
        for e in p.eff:
            if e.kind == 'setattr' and norm(e.a[0]) is s and (e.a[1] in absent or e.a[1] not in n.reads):
                n.made.add(e.a[1])
    n.made = set(cv(x) if isinstance(x, Term) and is_c(x) else x for x in n.made)
    if ctx.own(k, 'compute_dr_wrt'):
        for d in I.dterms(k):
            n.add(ctx.dr_paths(k, d), 'compute_dr_wrt')
    f = ctx.own(k, '__init__')
    if f is not None:
        a = I.fns[f.a[0]].node.args
        ps = ctx.run(f, [s] + [T('sym', x.arg) for x in a.args[1:]], selfterm=s)
        for p in ps or ():
            for e in alleff(p.eff):
                if e.kind == 'setattr' and norm(e.a[0]) is s and isinstance(e.a[1], str):
                    n.sets.setdefault(e.a[1], e.loc)
                    if e.a[1] in ('dterms', 'terms'):
                        n.declared.setdefault(e.a[1], set()).update(cv(x) for x in subterms(e.a[2]) if is_c(x) and isinstance(cv(x), str))
                elif e.kind == 'unpicklable' and norm(e.a[0]) is s:
                    n.unpick.setdefault(e.a[1], (e.loc, e.a[2]))
                elif e.kind in ('call', 'objcall') and isinstance(e.a[0], Term) and e.a[0].op == 'sym' and e.a[0].a[0] in I.terms(k):
                    n.unpick.setdefault(e.a[0].a[0], (e.loc, 'a function given by the caller'))
    for what, ps in common(s):
        n.add(ps, what)
    return n


def common_paths(ctx):
    """Paths of the machinery every node goes through."""
    I = ctx.I

    def go(s):
        k = s.a[0]
        out = []
        for name, args, prim in (('__setattr__', [T('sym', 'name'), T('sym', 'value')], ('clear_cache',)), ('clear_cache', [], ()),
                                 ('_call_on_changed', [], ('on_changed',)), ('_invalidate_cacheprop_names', [T('sym', 'names')], ())):
            f = ctx.method(k, name)
            if f is not None:
                out.append((name, ctx.run(f, [s] + args, selfterm=s, prim=prim)))
        f = ctx.method(k, 'dr_wrt')
        return out
    return go


def check(ctx, rep):
    I = ctx.I
    common = common_paths(ctx)
    cache = {}
    shared_common = {}
    for k in [I.ch] + I.chclasses:
        if k is not I.ch and (not ctx.lib_class(k) or ctx.abstract(k)):
            continue
        nm = ctx.short(k)
        hooks = [h for h in HOOKS if ctx.method(k, h) is not None]
        if hooks:
            f = ctx.method(k, hooks[0])
            s = ctx.inst(k)
            m = [T('sym', x.arg) for x in I.fns[f.a[0]].node.args.args[1:]]
            ps = ctx.run(f, [s] + m, selfterm=s)
            if hooks[0] in ('__copy__', '__deepcopy__') and ps and all(p.outcome == 'return' and isinstance(p.value, Term) and norm(p.value) is s for p in ps):
                rep.bad('copy', '%s.%s' % (nm, hooks[0]), ctx.fnloc(f), 'a copy is the original itself')
            else:
                rep.und('copy', '%s.%s' % (nm, hooks[0]), ctx.fnloc(f), 'how the class is copied is its own affair')
            continue
        one(ctx, rep, k, nm, common)
        importable(ctx, rep, k, nm)
    copies(ctx, rep)
    local_classes(ctx, rep)
    c03.restoring(ctx, rep, 'registered')
    rep.assume.append('pickle stores what __getstate__ returns and hands it to __setstate__ of an instance made by __new__ without arguments')


def importable(ctx, rep, k, nm):
    I = ctx.I
    if k is I.ch or not k.a or '<' in str(k.a[0]):
        return
    mod, _, name = k.a[0].rpartition('.')
    m = I.mods.get(mod)
    if m is None:
        rep.und('importable', nm, None, 'defined inside a function or class')
        return
    v = m.env.get(name)
    if v is k:
        rep.ok('importable', nm, None, 'found under its own name')
    elif isinstance(v, Term) and v.op in ('fn', 'cls', 'c'):
        rep.bad('importable', nm, (I.mods[mod].path.replace(ctx.repo + '/', '') if hasattr(I.mods[mod], 'path') else mod, 0, nm),
                'the name %s of its module stands for something else when an expression is pickled' % name)
    else:
        rep.und('importable', nm, None, 'what its name stands for is not known')


def one(ctx, rep, k, nm, common):
    I = ctx.I
    s = ctx.inst(k)
    n = gather(ctx, k, s, common)
    gf, sf = ctx.method(k, '__getstate__'), ctx.method(k, '__setstate__')
    loc = ctx.fnloc(gf) if gf is not None else ctx.fnloc(ctx.method(I.ch, '__new__'))
    new = getattr(n, 'new', {})
    every = set(x for x in list(n.sets) + list(n.reads) + list(new) + list(n.unpick) if isinstance(x, str)) | set(I.dterms(k)) | set(I.terms(k))
    if n.newpaths is not None and n.newpaths and all(p.outcome == 'raise' for p in n.newpaths):
        rep.bad('creatable', nm, ctx.fnloc(ctx.method(k, '__new__')), 'an instance cannot be made without arguments')
    elif n.newpaths:
        rep.ok('creatable', nm, ctx.fnloc(ctx.method(k, '__new__')), 'an instance can be made without arguments')
    if gf is None:
        states = [State()]
        states[0].how = 'alias'
    else:
        ps = ctx.run(gf, [s], selfterm=s, attrs={(s, x): A(s, x) for x in n.declared})
        if ps is None:
            rep.und('state', nm, loc, ctx.note)
            return
        live = [p for p in ps if p.outcome != 'raise']
        if ps and not live:
            rep.bad('state', nm, loc, 'taking the state always fails')
            return
        sp_ = [(e, a) for p in live for e, a in spoils(p.eff, s)]
        if sp_:
            rep.bad('original', nm, sp_[0][0].loc, 'taking the state changes %s of the original' % sp_[0][1].strip("'"))
        else:
            rep.ok('original', nm, loc, '%d paths, none changes the object' % len(live))
        states = [state(ctx, s, p, every, n.declared) for p in live]
    und = [x for x in states if x.why]
    if und:
        rep.und('state', nm, loc, und[0].why)
        return
    back = restored(ctx, s, sf)
    if back is None:
        rep.und('state', nm, ctx.fnloc(sf), ctx.note or 'restoring is not understood')
        return
    def gone(x):
        if x.how == 'listed':
            return set(every) - set(x.given)
        return set(x.dropped)

    # what cannot be pickled
    bad = []
    for a, (l, why) in sorted(n.unpick.items()):
        for x in states:
            if a in x.dropped or a in x.absent or x.how == 'listed' and a not in x.given:
                continue
            if a in x.given and not contains(x.given[a], lambda t: t is A(s, a) or t.op == 'item' and len(t.a) > 1 and t.a[1] is C(a)):
                continue
            bad.append((l, '%s holds %s and stays in the state' % (a, why)))
    if bad:
        rep.bad('picklable', nm, bad[0][0], bad[0][1])
    else:
        rep.ok('picklable', nm, loc, '%d attributes that cannot be pickled are left out' % len(n.unpick))

    # what is dropped
    bad = []
    for x in states:
        for a in sorted(gone(x)):
            if a in back['set']:
                v = back['set'][a]
                w = new.get(a)
                if isinstance(w, Term) and w.op == 'dict' and isinstance(v, Term) and v.op == 'dict':
                    miss = [q for q, _ in w.a if q not in [z for z, _ in v.a]]
                    if miss:
                        bad.append((back['loc'], '%s is restored without %s' % (a, ', '.join(map(show, miss)))))
                continue
            if a == '_itr':          # registering the inputs of a restored node sets it before it is asked for
                continue
            if a in n.made and n.reads.get(a, (None, ''))[1] != 'on_changed':
                continue
            if a in n.reads or a in new and a in ('_parents', '_cache', '_dirty_vars', '_itr', '_depends_on_deps'):
                if I.class_lookup(k, a) is not None:
                    if a in I.dterms(k) or a in I.terms(k):
                        bad.append((x.loc, '%s is left out of the state: the restored expression uses its default' % a))
                    continue
                l, w = n.reads.get(a, (None, ''))
                bad.append((x.loc or l, '%s is left out of the state and not restored%s' % (a, ', %s needs it' % w if w else '')))
            elif a in I.dterms(k) or a in I.terms(k):
                bad.append((x.loc, '%s is left out of the state' % a))
        # what is put in place of something that is needed
        for a, t in sorted(x.given.items(), key=lambda z: str(z[0])):
            if a not in n.reads and a not in new and a not in I.dterms(k):
                continue
            if a in back['set']:
                continue
            d = depth(t, A(s, a), s)
            if d == -1 and a in ('_itr', '_cache', '_parents') or a not in n.reads and a in new:
                continue
            if d == -1:
                bad.append((x.loc, 'what %s holds is not carried over (%s)' % (a, show(t)[:40])))
            elif d is not None and d >= 2 and norm(t).op in ('dictof', 'copyof'):
                m = lost(t)
                if m:
                    bad.append((x.loc, '%s is carried over with %s' % (a, m)))
    if bad:
        rep.bad('complete', nm, bad[0][0] or loc, bad[0][1])
    else:
        rep.ok('complete', nm, loc, 'everything left out is restored or created again when needed')

    # what is restored in place of something that was kept
    bad = []
    for a, v in sorted(back['set'].items()):
        if a in ('_parents', '_cache', '_itr') or a not in n.reads or all(a in gone(x) for x in states) and a not in new:
            continue
        if isinstance(v, Term) and (is_c(v) or v.op in ('dict', 'set', 'list', 'tup') and not v.a):
            bad.append((back['loc'], 'what %s held is forgotten when restoring' % a))
    if bad:
        rep.bad('carried', nm, bad[0][0], bad[0][1])
    else:
        rep.ok('carried', nm, back['loc'] or loc, 'restoring overwrites nothing that was kept')

    # what is shared
    bad, un = [], []
    for a, (need, l) in sorted(n.inplace.items()):
        if a == '__dict__' or a in back['set']:
            continue
        for x in states:
            if a in gone(x) or x.how == 'deep':
                continue
            d = depth(x.given[a], A(s, a), s) if a in x.given else 0
            if d is None:
                un.append((l, 'whether %s is shared is not understood' % a))
            elif 0 <= d < need:
                bad.append((l, '%s is changed in place but shared with a copy' % a))
    if bad:
        rep.bad('shared', nm, bad[0][0], bad[0][1])
    elif un:
        rep.und('shared', nm, un[0][0], un[0][1])
    else:
        rep.ok('shared', nm, loc, '%d attributes that are changed in place are not shared with a copy' % len(n.inplace))


def lost(t):
    """A per-entry flag set to a constant that forgets what the original knew."""
    for m in subterms(t):
        if m.op == 'map' and m.a[2].op == 'tup' and len(m.a[2].a) == 2 and m.a[2].a[1].op == 'dict':
            d = {cv(q): v for q, v in m.a[2].a[1].a if is_c(q)}
            if d.get('out_of_date') is FALSE and d.get('value') is not NONE or d.get('out_of_date') is FALSE and d.get('value') is NONE:
                return 'dependent properties marked as up to date'
            if 'deps' in d and is_c(d['deps']) or 'deps' in d and d['deps'].op in CONS and not d['deps'].a:
                return 'the names they depend on forgotten'
            if d and 'deps' not in d:
                return 'the names they depend on left out'
    return None


def restored(ctx, s, sf):
    out = {'set': {}, 'loc': None}
    if sf is None:
        return out
    ps = ctx.run(sf, [s, T('sym', 'd')], selfterm=s, prim=('clear_cache',))
    if ps is None:
        return None
    out['loc'] = ctx.fnloc(sf)
    acc = None
    for p in ps:
        if p.outcome == 'raise':
            continue
        cur = {}
        for e in p.eff:
            if e.kind == 'setitem' and is_c(e.a[1]) and (norm(e.a[0]) is T('sym', 'd') or norm(e.a[0]) is A(s, '__dict__')
                                                         or contains(e.a[0], lambda x: x is T('sym', 'd')) and norm(e.a[0]).op == 'copyof'):
                cur[cv(e.a[1])] = e.a[2]
            elif e.kind == 'setattr' and norm(e.a[0]) is s and isinstance(e.a[1], str) and e.a[1] != '__dict__':
                cur[e.a[1]] = e.a[2]
            elif e.kind == 'mut' and e.a[1] == 'setdefault' and e.a[2] and is_c(e.a[2][0]):
                cur[cv(e.a[2][0])] = e.a[2][1] if len(e.a[2]) > 1 else NONE
        acc = cur if acc is None else {a: v for a, v in acc.items() if a in cur}
    out['set'] = acc or {}
    return out


def local_classes(ctx, rep):
    """Classes defined where pickle does not find them, of which instances are handed out."""
    I = ctx.I
    n = 0
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i) or isinstance(i.node, ast.Lambda):
            continue
        n += 1
        local = [x for x in ast.walk(i.node) if isinstance(x, ast.ClassDef) and x is not i.node]
        if not local:
            continue
        env = I.mods[i.mod].env
        for c in local:
            bases = []
            for b in c.bases:
                t = env.get(b.id) if isinstance(b, ast.Name) else None
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                    m = env.get(b.value.id)
                    m = I.mods.get(m.a[0]) if isinstance(m, Term) and m.op == 'mod' else None
                    t = m.env.get(b.attr) if m is not None else None
                bases.append(t)
            node = any(isinstance(t, Term) and t.op == 'cls' and I.is_ch_class(t) for t in bases)
            glob = any(isinstance(x, ast.Global) and c.name in x.names for x in ast.walk(i.node))
            out = any(isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == c.name
                      for x in ast.walk(i.node))
            if node and out and not glob:
                rep.bad('importable', '%s.%s' % (q, c.name), ctx.fnloc(f)[:1] + (c.lineno, q), 'expressions of a class made inside a function cannot be pickled')
            elif node:
                rep.und('importable', '%s.%s' % (q, c.name), ctx.fnloc(f), 'a class made inside a function; whether its expressions get out is not known')
    rep.ok('importable', 'classes inside functions', None, '%d functions searched' % n)


def copies(ctx, rep):
    """The library's own copy functions."""
    I = ctx.I
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i) or i.name != 'copy' or i.frame is not None:
            continue
        s = T('inst', I.ch, 'self', 'open')
        a = [x.arg for x in i.node.args.args]
        if not a:
            continue
        ps = ctx.run(f, [s] + [T('sym', x) for x in a[1:]])
        loc = ctx.fnloc(f)
        if ps is None:
            rep.und('copy', q, loc, ctx.note)
            continue
        live = [p for p in ps if p.outcome != 'raise']
        if not live:
            continue
        bad = und = None
        for p in live:
            v = norm(p.value) if isinstance(p.value, Term) else None
            if v is s:
                bad = 'the copy is the original'
            elif v is None or v is NONE:
                bad = 'no copy is returned'
            elif v.op == 'copyof' and v.a[0] is s:
                if len(v.a) < 2 or v.a[1] != 'deepcopy':
                    bad = 'the copy shares all inputs with the original'
            elif v.op == 'ecall' and show(v.a[0] if isinstance(v.a[0], Term) else C(v.a[0])).strip("'").endswith('.loads'):
                w = v.a[1][0] if v.a[1] else None
                if not (isinstance(w, Term) and w.op == 'ecall' and '.dumps' in show(w) and w.a[1] and w.a[1][0] is s):
                    und = 'what is pickled is not understood'
            else:
                und = 'how the copy is made is not understood: %s' % show(v)[:60]
        if bad:
            rep.bad('copy', q, loc, bad)
        elif und:
            rep.und('copy', q, loc, und)
        else:
            rep.ok('copy', q, loc, 'a full round trip')
