"""Effects of the change-tracking machinery, recognised on the paths of the abstract interpreter.

Everything here works on effect lists (what a path does to which object), never on source text: a helper that is
extracted or inlined, statements in another order, a loop written differently give the same effects."""
from .interp import mkis, mkeq, UNSET, DELETED
from .terms import T, C, NONE, TRUE, FALSE, Term, is_c, cv, tup, show, subterms

_memo = {}


def norm(t):
    """Strip version marks and loop phis of attributes: which object is meant, not when."""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(norm(x) for x in t)
        return t
    r = _memo.get(t)
    if r is None:
        if t.op == 'at':
            r = norm(t.a[0])
        elif t.op == 'phi' and len(t.a) == 4 and t.a[1] == 'attr':
            r = T('attr', norm(t.a[2]), t.a[3])
        else:
            r = T(t.op, *[norm(x) for x in t.a])
        _memo[t] = r
    return r


def A(o, name):
    return T('attr', o, name)


def item(o, k):
    return T('item', o, C(k))


def loops(effs):
    for e in effs:
        if e.kind == 'loop':
            yield e.a[0]


def flat(effs):
    """All effects, those of loop bodies included (order within a level only)."""
    for e in effs:
        yield e
        if e.kind == 'loop':
            for q in e.a[0].paths:
                for x in flat(q.eff):
                    yield x


def opaque(effs, objs=()):
    """A call whose effect is not known is reached (it may do anything)."""
    for e in flat(effs):
        if e.kind in ('call', 'rcall'):
            return e
    return None


# ------------------------------------------------------------------ recognisers: effect e does X to object o
def is_empty_cache(v):
    """(r cleared, drs cleared) by a dictionary put in the place of the cache."""
    v = norm(v)
    if v.op != 'dict':
        return (False, False)
    d = dict((cv(k), x) for k, x in v.a if isinstance(k, Term) and is_c(k))
    return (d.get('r') is NONE, 'drs' in d and fresh_map(d['drs']))


def fresh_map(t):
    t = norm(t)
    if t.op == 'dict':
        return len(t.a) == 0
    return t.op == 'call' and show(t.a[0]).endswith('WeakKeyDictionary') and not t.a[1] or \
        t.op == 'extcall' or t.op == 'new' and not t.a[1]


def clears_r(e, o):
    if e.kind == 'setitem' and norm(e.a[0]) is A(o, '_cache') and e.a[1] is C('r'):
        return e.a[2] is NONE
    if e.kind == 'setattr' and norm(e.a[0]) is o and e.a[1] == '_cache':
        return is_empty_cache(e.a[2])[0]
    if e.kind == 'mut' and norm(e.a[0]) is A(o, '_cache') and e.a[1] == 'update' and e.a[2]:
        return is_empty_cache(e.a[2][0])[0]
    return False


def clears_drs(e, o):
    drs = item(A(o, '_cache'), 'drs')
    if e.kind == 'mut' and norm(e.a[0]) is drs and e.a[1] == 'clear':
        return True
    if e.kind == 'setitem' and norm(e.a[0]) is A(o, '_cache') and e.a[1] is C('drs'):
        return fresh_map(e.a[2])
    if e.kind == 'setattr' and norm(e.a[0]) is o and e.a[1] == '_cache':
        return is_empty_cache(e.a[2])[1]
    if e.kind == 'mut' and norm(e.a[0]) is A(o, '_cache') and e.a[1] == 'update' and e.a[2]:
        return is_empty_cache(e.a[2][0])[1]
    return False


def names_in(t, names):
    """Does the collection t certainly contain everything of `names` (a constant name or a collection term)?"""
    t = norm(t)
    if t is names:
        return True
    if t.op in ('set', 'list', 'tup'):
        if names in t.a:
            return True
        return any(x.op == 'star' and len(x.a) > 1 and isinstance(x.a[1], Term) and names_in(x.a[1], names) for x in t.a)
    if t.op == 'setop' and t.a[0] == 'union' or t.op == 'bin' and t.a[0] == 'BitOr':
        return any(names_in(x, names) for x in t.a[1:] if isinstance(x, Term))
    if t.op in ('listof', 'sorted', 'setof', 'at', 'frozen'):
        return names_in(t.a[0], names)
    if t.op == 'call' and t.a[1] and show(t.a[0]) in ('builtins.set', 'builtins.list', 'builtins.tuple', 'set'):
        return names_in(t.a[1][0], names)
    return False


def keeps(t, old):
    """Does the collection t certainly contain everything the collection `old` has?"""
    t = norm(t)
    if t is old:
        return True
    if t.op == 'setop' and t.a[0] == 'union' or t.op == 'bin' and t.a[0] == 'BitOr':
        return any(keeps(x, old) for x in t.a[1:] if isinstance(x, Term))
    if t.op in ('set', 'list', 'tup'):
        return any(x.op == 'star' and len(x.a) > 1 and isinstance(x.a[1], Term) and keeps(x.a[1], old) for x in t.a)
    if t.op in ('listof', 'sorted', 'setof'):
        return keeps(t.a[0], old)
    return False


def dirties(e, o, names):
    """1: adds the names to the pending names of o; -1: certainly does not keep what was pending; 0: neither."""
    dv = A(o, '_dirty_vars')
    if e.kind == 'mut' and norm(e.a[0]) is dv:
        if e.a[1] == 'add' and e.a[2] and norm(e.a[2][0]) is names:
            return 1
        if e.a[1] in ('update', '__ior__') and e.a[2] and names_in(e.a[2][0], names):
            return 1
        if e.a[1] in ('clear',):
            return -1
        return 0
    if e.kind == 'setattr' and norm(e.a[0]) is o and e.a[1] == '_dirty_vars':
        v = norm(e.a[2])
        n, k = names_in(v, names), keeps(v, dv)
        if n and k:
            return 1
        if not k and v.op in ('set', 'list', 'tup', 'dict') and not any(x.op == 'star' for x in v.a if isinstance(x, Term)) or v is names:
            return -1
        return 0
    return 0


def invalidates(e, o, names):
    """Marks the dependent properties of o that depend on any of the names as out of date."""
    if e.kind == 'vcall' and norm(e.a[0]) is o and e.a[1] == '_invalidate_cacheprop_names':
        v = [norm(x) for x in e.a[2]] + [norm(x) for k, x in e.a[3]]
        return bool(v) and names_in(v[0], names)
    if e.kind == 'loop':
        return inval_loop(e.a[0], o, names) is True
    return False


def deps_map(t):
    t = norm(t)
    while t.op in ('listof', 'dictitems', 'dictkeys', 'dictvalues', 'sorted') or t.op == 'mcall' and t.a[1] in ('items', 'keys', 'values', 'copy'):
        t = t.a[0]
    return t


class Unsure(str):
    """A reason why something could not be decided."""


def scans_props(t, o):
    return t is not None and deps_map(t) is A(o, '_depends_on_deps')


def inval_loop(L, o, names):
    """True: the loop marks every entry whose dependencies meet the names; a string: it does not (Unsure: not decided);
    None: not such a loop."""
    if L.iter is None:
        return None
    if not scans_props(L.iter, o):
        if not names_in(L.iter, names):
            return None
        # name by name: every pass scans all properties
        inner = []
        for q in L.paths:
            if q.outcome == 'raise':
                continue
            rs = [scan(e.a[0], o, e2name(L)) for e in q.eff
                  if e.kind == 'loop' and scans_props(e.a[0].iter, o)]
            if not rs:
                return None if not inner else Unsure('not every name is looked up')
            if q.outcome in ('break', 'return'):
                return 'the scan of the changed names stops early'
            inner.append(rs)
        bad = [r for rs in inner for r in rs if r is not True]
        return bad[0] if bad else (True if inner else None)
    return scan(L, o, names)


def e2name(L):
    """The name a pass of a loop over the changed names is about."""
    return T('one-of', norm(L.iter))


def scan(L, o, names):
    for q in L.paths:
        if q.outcome in ('break', 'return'):
            return 'the scan of the dependent properties stops early'
        if q.outcome == 'raise':
            continue
        sets = [e for e in q.eff if e.kind == 'setitem' and e.a[1] is C('out_of_date')]
        if any(e.a[2] is TRUE for e in sets):
            continue
        if any(e.a[2] is FALSE for e in sets):
            return 'a dependent property is marked up to date'
        if sets:
            return Unsure('what a dependent property is marked as')
        # a loop over the names or the dependencies that marks when one is among the others
        rs = [name_scan(e.a[0], names) for e in q.eff if e.kind == 'loop']
        if True in rs:
            continue
        # an unmarked entry must be one whose dependencies do not meet the names
        ok = False
        other = []
        for atom, val in q.facts:
            if meets(atom, names) is not None:
                if val == (not meets(atom, names)):
                    ok = True
            elif 'out_of_date' in show(atom):
                ok = ok or val          # already marked
            else:
                other.append((atom, val))
        if ok:
            continue
        msg = 'a property that depends on the changed input can stay unmarked%s' % (
            ' (when %s is %s)' % (show(other[0][0]), other[0][1]) if other else '')
        if any(isinstance(r, Unsure) for r in rs) or any(unclear(a, v, names) for a, v in other):
            return Unsure(msg)
        return msg
    return True


def name_scan(L, names):
    """A loop over the names (or the dependencies) that marks the entry at hand."""
    if L.iter is None:
        return None
    over = norm(L.iter)
    if names_in(over, names):
        other = is_deps
    elif is_deps(over):
        def other(t):
            return names_in(t, names)
    else:
        return None
    for q in L.paths:
        marks = any(e.kind == 'setitem' and e.a[1] is C('out_of_date') and e.a[2] is TRUE for e in q.eff)
        if marks or q.outcome == 'raise':
            continue
        if q.outcome in ('break', 'return'):
            return Unsure('the scan of the names stops early')
        if not any(not v and norm(a).op == 'in' and norm(a).a[0].op == 'elem' and other(norm(a).a[1]) for a, v in q.facts):
            return Unsure('a name may be passed over')
    return True


def unclear(atom, val, names):
    """A condition that relates the names to the dependencies in a way the analysis has no reading of."""
    t = norm(atom)
    txt = show(t)
    if "'deps'" not in txt and '_depends_on_deps' not in txt:
        return False
    if any(x in txt for x in ('issubset', 'issuperset', 'all(')):
        return False
    if t.op in ('eq', 'is', 'lt', 'le', 'cmp') or t.op == 'in' and is_deps(t.a[1]) and t.a[0].op == 'item':
        return False
    return True


def meets(atom, names):
    """True if the atom (when true) says that the dependencies meet the names; False if it says they do not; None otherwise."""
    t = norm(atom)
    if t.op == 'truth':
        x = t.a[0]
        if x.op == 'setop' and x.a[0] == 'intersection' or x.op == 'bin' and x.a[0] == 'BitAnd':
            ts = [y for y in x.a[1:] if isinstance(y, Term)]
            if any(names_in(y, names) for y in ts) and any(is_deps(y) for y in ts):
                return True
        if x.op == 'mcall' and x.a[1] == 'isdisjoint':
            ts = [x.a[0]] + list(x.a[2])
            if any(names_in(y, names) for y in ts) and any(is_deps(y) for y in ts):
                return False
    if t.op == 'in' and is_deps(t.a[1]):
        if t.a[0] is names:
            return True
        if names.op == 'one-of' and t.a[0].op == 'elem' and norm(t.a[0].a[0]) is names.a[0]:
            return True
    if t.op == 'builtin' and t.a[0] == 'any':
        t = T('any', *t.a[1:])
    if t.op == 'truth' and t.a[0].op in ('any', 'builtin'):
        t = t.a[0]
    if t.op == 'any' and t.a and isinstance(t.a[0], Term) and t.a[0].op == 'map':
        over, el, what = t.a[0].a[:3]
        if what.op == 'cmp' and what.a[0] == 'In' and what.a[1].op == 'elem' \
                and (names_in(over, names) and is_deps(what.a[2]) or is_deps(over) and names_in(what.a[2], names)):
            return True
    if t.op == 'anyof' or t.op == 'truth' and t.a[0].op in ('call', 'any', 'np') and 'deps' in show(t):
        return True
    return None


def is_deps(t):
    t = norm(t)
    while t.op in ('listof', 'sorted', 'setof') or t.op == 'set' and len(t.a) == 1 and t.a[0].op == 'star' and isinstance(t.a[0].a[1], Term):
        t = t.a[0] if t.op != 'set' else t.a[0].a[1]
    return t.op == 'item' and t.a[1] is C('deps')


# ------------------------------------------------------------------ the propagation of a change to all holders
class Spread(object):
    """Result of analysing clear_cache: status 'ok', 'bad' or 'und' per aspect."""
    def __init__(self):
        self.res = {}

    def put(self, aspect, status, msg, loc=None):
        old = self.res.get(aspect)
        rank = {'ok': 0, 'und': 1, 'bad': 2}
        if old is None or rank[status] > rank[old[0]]:
            self.res[aspect] = (status, msg, loc)


ASPECTS = ('value', 'derivs', 'reach', 'skip', 'dirty', 'props')


def parents_of(t):
    """n if the term iterates over the holders of n."""
    t = norm(t)
    while t.op in ('listof', 'dictitems', 'dictkeys', 'sorted') or t.op == 'mcall' and t.a[1] in ('items', 'keys', 'copy'):
        t = t.a[0]
    if t.op == 'attr' and t.a[1] == '_parents':
        return t.a[0]
    return None


def parent_elem(L):
    """The holder a loop over holders is about."""
    e = norm(L.elem)
    if e.op == 'tup' and e.a:
        return e.a[0]
    return e


def done_fact(atom, val, n):
    """The fact says that n was already dealt with in this sweep (membership in a local collection)."""
    t = norm(atom)
    if t.op == 'in' and val and (t.a[0] is n or t.a[0] is T('id', n) or t.a[0].op == 'id' and t.a[0].a[0] is n):
        c = t.a[1]
        return c.op in ('set', 'list', 'dict', 'opendict', 'star', 'ref')
    return False


def itr_fact(atom, val, n, itr):
    t = norm(atom)
    if itr is NONE or not val:
        return False
    return t.op in ('eq', 'is') and set(t.a) == set([itr, A(n, '_itr')])


def spread(ctx, itr):
    """Analyse clear_cache(itr) of a node of any class."""
    I = ctx.I
    S = Spread()
    f = ctx.method(I.ch, 'clear_cache')
    if f is None:
        for a in ASPECTS:
            S.put(a, 'und', 'clear_cache not found')
        return S, None
    s = T('inst', I.ch, 'self', 'open')
    facts = {}
    if itr is not NONE:
        facts[mkis(itr, NONE)] = False
    ps = ctx.run(f, [s, itr], selfterm=s, facts=facts)
    loc = ctx.fnloc(f)
    if ps is None:
        for a in ASPECTS:
            S.put(a, 'und', ctx.note, loc)
        return S, loc
    for p in ps:
        if p.outcome == 'raise':
            continue
        op = opaque(p.eff)
        bad = 'und' if op is not None else 'bad'
        # (a) worklist: some loop takes nodes from a list that starts with the node itself
        wl = None
        for L in loops(p.eff):
            if L.kind != 'while':
                continue
            for a in L.nodelists:
                h = L.before.get(a)
                if h and s in h[1] and a in L.changed['heap']:
                    wl = (L, a)
        if wl is not None:
            worklist(ctx, S, p, wl[0], wl[1], itr, s)
            continue
        # (b) recursion: the node is cleared, then clear_cache is called on every holder
        if any(itr_fact(a, v, s, itr) for a, v in p.facts):
            continue
        done = [(a, v) for a, v in p.facts if done_fact(a, v, s)]
        if done:
            continue
        process(ctx, S, p.eff, s, itr, lambda L, el, q: any(
            e.kind in ('vcall',) and norm(e.a[0]) is el and e.a[1] == 'clear_cache' for e in q.eff), bad, loc)
    return S, loc


def process(ctx, S, effs, n, itr, pushes, bad, loc, extra=None):
    """n is dealt with on a path with these effects: everything must be cleared and every holder reached."""
    S.put('value', 'ok' if any(clears_r(e, n) for e in flat_own(effs)) else bad, 'the kept value of a node whose input changed is not dropped', loc)
    S.put('derivs', 'ok' if any(clears_drs(e, n) for e in flat_own(effs)) else bad, 'the kept derivatives of a node whose input changed are not dropped', loc)
    pl = [L for L in loops(effs) if L.iter is not None and parents_of(L.iter) is n]
    reached = dirty = props = False
    if extra and extra():
        reached = True
    for L in pl:
        el = parent_elem(L)
        live = [q for q in L.paths if q.outcome != 'raise']
        if any(q.outcome in ('break', 'return') for q in live):
            S.put('reach', 'bad', 'the scan of the holders stops before the last one', L.loc)
            continue
        r = [q for q in live if not pushes(L, el, q) and not any(done_fact(a, v, el) for a, v in q.facts)]
        if not r:
            reached = True
        elif len(r) < len(live):
            S.put('reach', bad, 'a holder can be left out (%s)' % why(r[0]), L.loc)
            reached = True
        names = T('item', T('item', A(n, '_parents'), el), C('varnames'))
        d = [q for q in live if not any(dirties(e, el, names) == 1 for e in q.eff)]
        if not d:
            dirty = True
        elif len(d) < len(live):
            S.put('dirty', bad, 'a holder may not learn which of its inputs changed (%s)' % why(d[0]), L.loc)
            dirty = True
        elif any(any(dirties(e, el, names) == -1 for e in q.eff) for q in live):
            S.put('dirty', 'bad', 'names that were pending at a holder are thrown away', L.loc)
            dirty = True
        v = [q for q in live if not any(invalidates(e, el, names) for e in q.eff)]
        if not v:
            props = True
        elif len(v) < len(live):
            S.put('props', bad, 'dependent properties of a holder may stay marked up to date (%s)' % why(v[0]), L.loc)
            props = True
    S.put('reach', 'ok' if reached else bad, 'the holders of a changed node are not reached', loc)
    S.put('dirty', 'ok' if dirty else bad, 'the holders of a changed node do not learn which of their inputs changed', loc)
    S.put('props', 'ok' if props else bad, 'the dependent properties of the holders of a changed node are not marked out of date', loc)


def flat_own(effs):
    return effs


def why(q):
    fs = [(a, v) for a, v in q.facts]
    return 'when %s is %s' % (show(fs[-1][0]), fs[-1][1]) if fs else 'always'


def worklist(ctx, S, p, L, addr, itr, s):
    loc = L.loc
    live = [q for q in L.paths if q.outcome != 'raise']
    seen = False
    marks = set()
    for q in live:
        for a, v in q.facts:
            t = norm(a)
            if t.op == 'in' and v and t.a[0].op in ('id', 'popped') and any(x.op == 'popped' for x in subterms(t.a[0])):
                marks |= set(x.a[1] for x in subterms(t.a[1]) if x.op == 'star' and not isinstance(x.a[1], Term))
    for q in live:
        if q.outcome in ('break', 'return'):
            # leaving is right only when nothing is left to do
            if not any(a.op == 'truth' and not v and a.a[0].op in ('list', 'ref') for a, v in q.facts):
                S.put('reach', 'bad', 'the sweep over the holders can end while holders are still waiting (%s)' % why(q), loc)
            continue
        # the node taken from the list
        n = None
        for e in q.eff:
            if e.kind == 'mut' and e.a[1] in ('pop', 'popleft') and norm(e.a[0]).op == 'list':
                for t in reads(q):
                    if t.op == 'popped':
                        n = t
        if n is None:
            for t in reads(q):
                if t.op == 'popped':
                    n = t
        if n is None:
            S.put('reach', 'und', 'no node taken from the list', loc)
            continue
        op = opaque(q.eff)
        bad = 'und' if op is not None else 'bad'
        if any(done_fact(a, v, n) or itr_fact(a, v, n, itr) for a, v in q.facts):
            S.put('skip', 'ok', 'a node is passed over only if this sweep dealt with it', loc)
            continue
        touched = any(clears_r(e, n) or clears_drs(e, n) for e in q.eff)
        if not touched and not any(L2.iter is not None and parents_of(L2.iter) is n for L2 in loops(q.eff)):
            S.put('skip', bad, 'a node can be passed over although this sweep has not dealt with it (%s)' % why(q), loc)
            continue
        seen = True
        for m in marks:
            h0, h1 = L.entry.heap.get(m), q.st.heap.get(m)
            if h0 is None or h1 is None:
                continue
            for x in h1[1]:
                x = norm(x)
                if x in [norm(y) for y in h0[1]] or x is n or x is T('id', n):
                    continue
                S.put('skip', 'bad' if marks_others(ctx, q, m, n) else 'und', 'nodes that were not dealt with are marked as dealt with', loc)

        def pushes(L2, el, q2):
            ap = L2.appends.get((id(q2), addr))
            return ap is not None and any(norm(x) is el for x in ap)

        def extra():
            h = q.st.heap.get(addr)
            for x in (h[1] if h else ()):
                if x.op == 'star' and isinstance(x.a[1], Term) and any(parents_of(y) is n for y in subterms(norm(x.a[1]))):
                    return True
            return False
        process(ctx, S, q.eff, n, itr, pushes, bad, loc, extra)
    if not seen:
        for a in ASPECTS:
            S.put(a, 'und', 'no path deals with a node', loc)


def marks_others(ctx, q, addr, n):
    for L2 in loops(q.eff):
        for q2 in L2.paths:
            for x in L2.appends.get((id(q2), addr), ()):
                x = norm(x)
                if x is not n and x is not T('id', n):
                    return True
    return False


def reads(q):
    out = []
    for e in q.eff:
        for x in e.a:
            if isinstance(x, Term):
                for t in subterms(norm(x)):
                    if t.op == 'popped':
                        out.append(t)
    return out
