"""C17: dependent cached properties are recomputed exactly when needed."""
from ._setattr import *

EXPLAIN = ('Typestate analysis of the dependent-property cache. States: out of date / kept. Every path of attribute assignment and of the sweep over '
           'holders must move the properties that depend on the changed names to "out of date" (the scan over the registered properties may leave '
           'one unmarked only if its dependencies do not meet the names); a read in state "out of date" must compute, store and then move to "kept"; '
           'a read in state "kept" must return what was stored; registration at construction must cover every such property with its declared '
           'dependencies, starting out of date. Dependence analysis of each property of the library: the inputs it reads are among those it declares.')

PROBE = '''
from .ch import Ch, depends_on
class Probe(Ch):
    dterms = 'a', 'b'
    terms = 'c', 'd'
    @depends_on('a', ['c', 'd'])
    def prop(self):
        return self.probe_work()
    @depends_on('b')
    def prop_out(self, out):
        return self.probe_work(out)
    @depends_on('b', 'c')
    def prop_two(self):
        return self.probe_work()
class ProbeSub(Probe):
    @depends_on('d')
    def prop_more(self):
        return self.probe_work()
'''
DEPS = {'prop': set(['a', 'c', 'd']), 'prop_out': set(['b']), 'prop_two': set(['b', 'c']), 'prop_more': set(['d'])}
INV = '_invalidate_cacheprop_names'


def inval_check(p, s, sc):
    label, c, name, kind, value, facts, old = sc
    if kind == 'x':
        return None
    for e in p.eff:
        if invalidates(e, s, C(name)):
            return None
        if e.kind == 'loop':
            r = inval_loop(e.a[0], s, C(name))
            if isinstance(r, str):
                return ('und' if isinstance(r, Unsure) else 'bad', r)
    return ('bad', 'the dependent properties are not marked out of date by the assignment')


def marking(ctx, rep):
    I = ctx.I
    f = ctx.method(I.ch, INV)
    if f is None:
        rep.und('marking', INV, None, 'not found')
        return
    s = T('inst', I.ch, 'self', 'open')
    names = T('sym', 'names')
    ps = ctx.run(f, [s, names], selfterm=s)
    loc = ctx.fnloc(f)
    if ps is None:
        rep.und('marking', ctx.qual(f), loc, ctx.note)
        return
    bad = None
    for p in ps:
        if p.outcome == 'raise':
            continue
        rs = [inval_loop(L, s, names) for L in loops(p.eff)]
        if True in rs:
            continue
        msg = [r for r in rs if isinstance(r, str)]
        sure = [r for r in msg if not isinstance(r, Unsure)]
        if sure:
            bad = ('bad', sure[0])
        elif msg:
            bad = bad or ('und', msg[0])
        elif any(a.op == 'truth' and not v for a, v in p.facts):
            continue                               # nothing registered, or no names
        elif bad is None:
            bad = ('und', 'no scan over the registered properties recognised')
    if bad is None:
        rep.ok('marking', ctx.qual(f), loc, '%d paths' % len(ps))
    elif bad[0] == 'bad':
        rep.bad('marking', ctx.qual(f), loc, bad[1])
    else:
        rep.und('marking', ctx.qual(f), loc, bad[1])


def flag_of(p, E):
    """The state assumed by the path: True out of date, False kept, None not tested."""
    F = T('item', E, C('out_of_date'))
    for a, v in p.facts:
        t = norm(a)
        if t.op in ('eq', 'is') and F in t.a:
            o = t.a[0] if t.a[1] is F else t.a[1]
            if o is TRUE:
                return v
            if o is FALSE:
                return not v
        if t.op == 'truth' and t.a[0] is F:
            return v
    return None


def reader(pc, rep, cls, name):
    I = pc.I
    r = I.class_lookup(cls, name)
    if r is None or r[0].op != 'prop':
        rep.und('read', name, None, 'not a property')
        return
    f = r[0].a[0]
    loc = pc.fnloc(f)
    s = pc.inst(cls)
    ps = pc.run(f, [s], selfterm=s)
    if ps is None:
        rep.und('read', name, loc, pc.note)
        return
    E = T('item', A(s, '_depends_on_deps'), C(name))
    worst = None

    def put(st, msg):
        nonlocal worst
        if worst is None or st == 'bad' and worst[0] == 'und':
            worst = (st, msg)
    states = set()
    for p in ps:
        if p.outcome == 'raise':
            continue
        if not any(t is E for e in p.eff for x in e.a if isinstance(x, Term) for t in subterms(norm(x))):
            put('und', 'kept state not recognised')
            continue
        fl = flag_of(p, E)
        states.add(fl)
        work = store = reset = None
        mark = None
        for k, e in enumerate(p.eff):
            if e.kind == 'vcall' and e.a[1] == 'probe_work':
                work = k
            elif e.kind == 'setitem' and norm(e.a[0]) is E and e.a[1] is C('value'):
                store = (k, norm(e.a[2]))
            elif e.kind == 'setitem' and norm(e.a[0]) is E and e.a[1] is C('out_of_date'):
                if e.a[2] is FALSE:
                    reset = k if reset is None else reset
                else:
                    mark = k
            elif e.kind == 'mut' and norm(e.a[0]) is E:
                put('und', 'kept state changed in a way not followed')
        none = any(norm(a) is mkis(T('item', E, C('value')), NONE) and v for a, v in p.facts)
        ret = norm(p.value) if p.value is not None else None
        if fl is False or fl is None and work is None:
            if work is not None and not none:
                put('bad', 'recomputed although nothing it depends on changed%s' % text(p, E))
            elif fl is None:
                put('bad' if not opaque(p.eff) else 'und', 'can return a kept value without asking whether it is out of date%s' % text(p, E))
            elif work is None and ret is not T('item', E, C('value')):
                put('und' if ret is None or ret.op not in ('c', 'item') else 'bad', 'does not return the kept value')
        elif fl is True:
            if work is None:
                put('bad', 'not recomputed although out of date%s' % text(p, E))
                continue
            if store is None:
                put('bad', 'the recomputed value is not kept')
                continue
            if not any(t.op == 'vcall' for t in subterms(store[1])):
                put('bad', 'what is kept is not the recomputed value')
            if reset is None:
                put('bad', 'stays marked out of date after it was recomputed')
            elif reset < work:
                put('bad', 'marked up to date before it was recomputed: a failed computation leaves an old value marked good')
            if ret is not None and not any(t.op == 'vcall' for t in subterms(ret)):
                put('und' if ret.op not in ('item', 'c') or ret is T('item', E, C('value')) else 'bad', 'does not return the recomputed value')
        else:
            put('bad', 'recomputed on every read')
    if worst is None and states != set([True, False]):
        worst = ('und', 'states %s' % sorted(map(str, states)))
    if worst is None:
        rep.ok('read', name, loc, '%d paths' % len(ps))
    elif worst[0] == 'bad':
        rep.bad('read', name, loc, worst[1])
    else:
        rep.und('read', name, loc, worst[1])


def text(p, E):
    fs = [(a, v) for a, v in p.facts if not any(t is T('item', E, C('out_of_date')) for t in subterms(norm(a)))]
    return ' (when %s is %s)' % (show(fs[-1][0]), fs[-1][1]) if fs else ''


def registration(pc, rep, cls, names):
    I = pc.I
    f = pc.method(cls, '__new__')
    label = pc.short(cls)
    if f is None:
        rep.und('register', label, None, 'no constructor')
        return
    loc = pc.fnloc(f)
    ps = pc.run(f, [cls], kwargs={'a': T('sym', 'v')}, prim=('set', 'clear_cache'))
    if ps is None:
        rep.und('register', label, loc, pc.note)
        return
    worst = None
    for p in ps:
        if p.outcome == 'raise':
            continue
        d = None
        for e in p.eff:
            if e.kind == 'setattr' and e.a[1] == '_depends_on_deps':
                d = norm(e.a[2])
        if d is None or d.op != 'dict':
            worst = ('und', 'registered properties not followed')
            continue
        m = dict((cv(k), v) for k, v in d.a if is_c(k))
        for n in names:
            if n not in m:
                worst = ('bad', 'property "%s" is not registered' % n)
                continue
            x = dict((cv(k), v) for k, v in m[n].a if is_c(k)) if m[n].op == 'dict' else {}
            if x.get('out_of_date') is not TRUE:
                worst = ('bad' if x.get('out_of_date') in (FALSE, None, NONE) else 'und', 'property "%s" does not start out of date' % n)
            dd = x.get('deps')
            if dd is None or dd.op not in ('set', 'tup', 'list') or not all(is_c(y) for y in dd.a):
                worst = worst or ('und', 'dependencies of "%s" not followed' % n)
            elif DEPS[n] - set(cv(y) for y in dd.a):
                worst = ('bad', 'property "%s" is registered without its dependencies %s' % (n, ', '.join(sorted(DEPS[n] - set(cv(y) for y in dd.a)))))
    if worst is None:
        rep.ok('register', label, loc, '%d properties' % len(names))
    elif worst[0] == 'bad':
        rep.bad('register', label, loc, worst[1])
    else:
        rep.und('register', label, loc, worst[1])


def declared(ctx, rep):
    I = ctx.I
    n = 0
    for c in I.chclasses:
        if not ctx.lib_class(c):
            continue
        info = I.classes[c.a[0]]
        for k, v in info.env.items():
            if not isinstance(v, Term) or v.op != 'prop' or v.a[0].op != 'fn':
                continue
            d = I.st.attrs.get((v.a[0], 'deps'))
            if d is None:
                continue
            deps = I.known_items(d)
            q = '%s.%s' % (ctx.short(c), k)
            loc = ctx.fnloc(v.a[0])
            if deps is None or not all(is_c(x) for x in deps):
                rep.und('declared', q, loc, 'declared dependencies not known')
                continue
            deps = set(cv(x) for x in deps)
            s = ctx.inst(c)
            ps = ctx.run(v.a[0], [s], selfterm=s)
            if ps is None:
                rep.und('declared', q, loc, ctx.note)
                continue
            n += 1
            ins = set(I.dterms(c)) | set(I.terms(c))
            miss = {}
            for p in ps:
                for e in flat(p.eff):
                    if e.kind == 'read' and norm(e.a[0]) is s and e.a[1] in ins and e.a[1] not in deps:
                        miss[e.a[1]] = e.loc
                    if e.kind == 'eval' and norm(e.a[0]) is s:
                        for x in ins - deps:
                            miss[x] = e.loc
            for x in sorted(ins - deps):
                if x not in miss:
                    continue
                rep.bad('declared', '%s uses %s' % (q, x), miss[x], 'the property uses the input "%s", which it does not declare' % x)
            if not miss:
                rep.ok('declared', q, loc, 'reads only %s' % ', '.join(sorted(deps)))
    rep.count('library_properties', n)


def check(ctx, rep):
    setattr_sweep(ctx, rep, 'assignment', inval_check)
    put_spread(rep, spread(ctx, NONE), ('reach', 'skip', 'props'), 'clear_cache()')
    put_spread(rep, spread(ctx, ITR), ('reach', 'skip', 'props'), 'clear_cache(mark)')
    marking(ctx, rep)
    pc = Ctx(ctx.repo, probe=PROBE)
    cl = dict((pc.short(k).split('.')[-1], k) for k in pc.I.chclasses if pc.short(k).startswith('_probe.'))
    if set(cl) != set(['Probe', 'ProbeSub']):
        rep.und('read', 'depends_on', None, 'client classes not analysable')
    else:
        for n in ('prop', 'prop_out', 'prop_two'):
            reader(pc, rep, cl['Probe'], n)
        reader(pc, rep, cl['ProbeSub'], 'prop_two')
        registration(pc, rep, cl['Probe'], ('prop', 'prop_out', 'prop_two'))
        registration(pc, rep, cl['ProbeSub'], ('prop', 'prop_out', 'prop_two', 'prop_more'))
    declared(ctx, rep)
