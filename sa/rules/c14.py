"""C14: scipy-based minimisation evaluates at the point the solver asked for."""
from ..core import *
from ..track import norm
from ..terms import *
from ..terms import Term
from ..dogleg import fn_of, flat
from ..interp import LoopInfo, Unsupported
from .c12 import size_poly, report

EXPLAIN = ('The call of the scipy solver is found in minimize(); each function handed to it (value, gradient, Hessian, Hessian product) is analysed on all its '
           'paths for an arbitrary requested vector, from a state in which everything the functions keep between calls is arbitrary.  On every path a '
           'returned value must be computed from evaluations made after each of three variables of symbolic size was set from (or found exactly equal to) its own part of the '
           'requested vector, or be a kept result whose kept vector compares exactly equal; every path must leave the kept vector and the kept result describing the same '
           'point.  Start vector, gradient and Jacobian blocks follow the order of the variables, and after the solver every variable is set from its solution.')
CLOSURES = ('fun', 'jac', 'hess', 'hessp')


class Hook(object):
    """Runs the functions handed to the solver for an arbitrary vector and an arbitrary memory."""

    def __init__(self):
        self.calls = []
        self.seen = set()

    def __call__(self, I, args, kw):
        kw = dict(kw)
        for n, a in zip(('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp'), args):
            kw.setdefault(n, a)
        key = tuple(sorted((show(a), v) for a, v in I.st.facts.items()))
        if key in self.seen:
            return
        self.seen.add(key)
        more = I.known_items(kw['args']) if 'args' in kw else []
        if more is None:
            raise Unsupported('the arguments given to the solver are not known')
        st0 = I.st
        asked, p = T('sym', 'asked'), T('sym', 'direction')
        idx = len(I.loops)
        L = LoopInfo(idx, 'solver', I.loc + ('?',), None)
        I.loops.append(L)
        L.trial, L.objchg = [], {}
        L.before = dict(st0.heap)
        L.nodelists = set()
        ch = {k: set() for k in ('heap', 'attrs', 'items', 'gov', 'ver', 'frame')}
        out = {}
        I.loopdepth += 1
        try:
            for rnd in range(5):
                I.st = st0.clone()
                I.havoc(ch, idx, L)
                entry = I.st
                allp = []
                for k in CLOSURES:
                    g = kw.get(k)
                    if g is None or g is NONE or g.op in ('c', 'sym'):
                        continue
                    a = [asked] + ([p] if k == 'hessp' else []) + list(more)

                    def body():
                        I.st.epoch += 1
                        return I.call(g, a, {})
                    out[k] = I.explore(body, entry)
                    allp += out[k]
                new = I.diff(entry, allp)
                L.trial = allp
                grown = any(not new[k] <= ch[k] for k in ch)
                for k in ch:
                    ch[k] |= new[k]
                for a in list(ch['heap']):
                    if st0.heap.get(a) is None:
                        ch['heap'].discard(a)
                    elif st0.heap[a][0] == 'obj' and entry.heap[a][0] == 'obj':
                        L.objchg[a] = L.objchg.get(a, set()) | I.objchanges(entry, allp, a)
                if not grown:
                    break
        finally:
            I.loopdepth -= 1
            I.st = st0
        for g in kw.values():
            if isinstance(g, Term) and g.op == 'opaque':
                raise Unsupported('function handed to the solver')
        self.calls.append((kw, out, entry, ch, asked))


def steps(t):
    """Strip wrappers that keep elements and their order; None when an order other than rows-first is used."""
    t = norm(t)
    while t.op == 'np' and t.a[0] in ('reshape', 'ravel', 'copy', 'array', 'asarray', 'atleast_1d', 'asanyarray', 'ascontiguousarray', 'squeeze', 'flatten') or \
            t.op == 'item' and t.a[1].op == 'slice' and all(x is NONE for x in t.a[1].a):
        t = norm(t.a[1][0][1]) if t.op == 'np' else norm(t.a[0])
    return t


def cut(t, is_vec):
    """(start, stop, new shape, order given) of the part of the vector the term is, None if not understood."""
    shp, order = None, None
    while True:
        t = norm(t)
        if t.op == 'np' and t.a[0] in ('reshape', 'ravel', 'copy', 'array', 'asarray', 'flatten'):
            d = dict(t.a[1][1:]) if len(t.a[1]) > 1 and isinstance(t.a[1][1], tuple) else {}
            if t.a[0] == 'reshape':
                shp = shp or d.get('newshape') or (t.a[1][1][1] if len(t.a[1]) > 1 else None)
            o = d.get('order')
            if o is not None and o is not C('C') and t.a[0] in ('reshape', 'ravel', 'flatten'):
                order = o
            t = t.a[1][0][1]
        else:
            break
    if t.op != 'item':
        if t.op == 'np' and t.a[0] in ('split', 'array_split'):
            return None
        return None
    base = steps(t.a[0])
    if not is_vec(base):
        return None
    i = norm(t.a[1])
    if i.op == 'tup' and len(i.a) == 1:
        i = norm(i.a[0])
    if i.op == 'np' and i.a[0] == 'arange':
        a = [x for n, x in i.a[1] if x is not NONE]
        lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
    elif i.op == 'slice' and (len(i.a) < 3 or i.a[2] is NONE or i.a[2] is C(1)):
        lo = C(0) if i.a[0] is NONE else i.a[0]
        hi = i.a[1]
    else:
        return None
    if hi is NONE:
        return None
    return size_poly(lo), size_poly(hi), shp, order


def exact(atom, val):
    """('eq', a, b): the path has established that a and b are elementwise equal; ('near', a, b): only nearly; None."""
    a = norm(atom)
    while a.op in ('truth', 'atom'):
        a = a.a[0]
    if a.op == 'np':
        b = [x for n, x in a.a[1]]
        if a.a[0] in ('array_equal', 'array_equiv') and val:
            return ('eq', b[0], b[1])
        if a.a[0] == 'allclose' and val:
            return ('near', b[0], b[1])
        if a.a[0] == 'all' and val:
            c = b[0]
            if c.op == 'np' and c.a[0] == 'isclose':
                return ('near', c.a[1][0][1], c.a[1][1][1])
            if c.op in ('cmp', 'bin') and c.a[0] in ('Eq', '=='):
                return ('eq', c.a[1], c.a[2])
            if c.op == 'np' and c.a[0] == 'equal':
                return ('eq', c.a[1][0][1], c.a[1][1][1])
        if a.a[0] == 'any' and not val:
            c = b[0]
            if c.op in ('cmp', 'bin') and c.a[0] in ('NotEq', '!='):
                return ('eq', c.a[1], c.a[2])
            if c.op == 'np' and c.a[0] == 'not_equal':
                return ('eq', c.a[1][0][1], c.a[1][1][1])
            if c.op == 'bin' and c.a[0] == 'Sub':
                return ('eq', c.a[1], c.a[2])
            if c.op == 'un':
                return None

    def dist(t):
        """A distance that is zero only for equal vectors."""
        t = norm(t)
        if t.op == 'np' and t.a[0] in ('amax', 'max', 'sum', 'linalg.norm', 'absolute', 'abs', 'square'):
            return dist(t.a[1][0][1]) if t.a[0] not in ('amax', 'max', 'sum') or contains(t, lambda x: x.op == 'np' and x.a[0] in ('absolute', 'abs', 'square', 'fabs')
                                                                                       or x.op == 'bin' and x.a[0] == 'Pow') else None
        if t.op == 'bin' and t.a[0] == 'Pow' and t.a[2] is C(2):
            return dist(t.a[1])
        if t.op == 'bin' and t.a[0] == 'Sub':
            return (t.a[1], t.a[2])
        return None
    if a.op == 'eq' and val:
        # equality of some summary of the two vectors does not make them equal
        def summary(t):
            t = norm(t)
            return t.a[0] if t.op == 'np' and t.a[0] in ('amax', 'amin', 'max', 'min', 'sum', 'mean', 'prod', 'linalg.norm', 'std', 'var') else None
        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if is_c(x) and summary(y) and not dist(y):
                d = norm(norm(y).a[1][0][1])
                if d.op == 'bin' and d.a[0] == 'Sub':
                    return ('near', d.a[1], d.a[2])
        if summary(a.a[0]) and summary(a.a[0]) == summary(a.a[1]):
            return ('near', norm(a.a[0]).a[1][0][1], norm(a.a[1]).a[1][0][1])
        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if is_c(x) and cv(x) == 0 and not isinstance(cv(x), bool):
                d = dist(y)
                if d:
                    return ('eq',) + d
    if a.op in ('lt', 'le', 'gt', 'ge', 'cmp'):
        xs = [x for x in a.a if isinstance(x, Term)]
        op = a.op if a.op != 'cmp' else {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}.get(a.a[0], '')
        if len(xs) == 2:
            x, y = xs
            if not val:
                op = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}.get(op, '')
            if op in ('gt', 'ge'):
                x, y = y, x
            d = dist(x)
            if d and op and is_c(y) and isinstance(cv(y), (int, float)):
                if cv(y) > 0:
                    return ('near',) + d
                if cv(y) == 0 and op in ('le', 'ge'):
                    return ('eq',) + d
    return None


def same_part(a, b):
    if a is b:
        return True
    a, b = [cut(x, lambda t: True) for x in (a, b)]
    return a is not None and b is not None and None not in (a[0], a[1], b[0], b[1]) and polys(a[0], a[1]) == polys(b[0], b[1]) and a[3] is b[3]


def same_base(a, b):
    a, b = steps(a), steps(b)
    return a is b or a.op == b.op == 'item' and steps(a.a[0]) is steps(b.a[0])


def same_again(V):
    """array_equal(part, variable) right after the variable was set from that very part, or found equal to it, holds."""
    def hook(I, args, kw):
        if len(args) != 2 or kw:
            return None
        for a, b in ((args[0], args[1]), (args[1], args[0])):
            b = steps(b)
            if b.op in ('val', 'attr') and b.a[0] in V:
                v, a = b.a[0], steps(I.freeze(a))
                for e in reversed(I.st.eff):
                    if e.kind == 'nodesetitem' and e.a[0] is v:
                        k = norm(e.a[1])
                        whole = k.op == 'slice' and all(x is NONE for x in k.a)
                        return TRUE if whole and same_part(steps(e.a[2]), a) and same_base(e.a[2], a) else None
                    if e.kind == 'setattr' and e.a[0] is v:
                        return TRUE if e.a[1] == 'x' and same_part(steps(e.a[2]), a) and same_base(e.a[2], a) else None
                    if e.kind in ('call', 'loop') or e.kind == 'vcall' and e.a[0] is v:
                        return None
                    if e.kind == 'fact' and e.a[1]:
                        r = exact(e.a[0], True)
                        if r and r[0] == 'eq' and any(same_part(steps(x), a) and same_base(x, a) and steps(y).op in ('val', 'attr') and steps(y).a[0] is v for x, y in (r[1:], r[:0:-1])):
                            return TRUE
                return None
        return None
    return hook


def polys(lo, hi):
    return tuple(sorted(lo, key=lambda t: t.uid)), tuple(sorted(hi, key=lambda t: t.uid))


def follow(effs, V, is_vec):
    """State of each variable after the effects: ('set', epoch after it) / ('near'|'wrong'|'unknown', loc, why); missing: untouched."""
    want, pos = {}, ()
    for v in V:
        nxt = tuple(sorted(pos + (v,), key=lambda t: t.uid))
        want[v] = (pos, nxt)
        pos = nxt
    out = {}

    def given(v, val, e):
        c = cut(val, is_vec)
        if c is None:
            if len(V) == 1 and is_vec(steps(val)):
                return ('set', e.ep)
            return ('unknown', e.loc, 'what %s receives is not understood: %s' % (show(v), show(norm(val))[:80]))
        if c[0] is None or c[1] is None:
            return ('unknown', e.loc, 'bounds of the part %s receives are not sums of sizes' % show(v))
        if polys(c[0], c[1]) != want[v]:
            return ('wrong', e.loc, '%s receives elements [%s, %s) of the vector instead of its own part' % (
                show(v), '+'.join('size ' + show(t) for t in c[0]) or '0', '+'.join('size ' + show(t) for t in c[1]) or '0'))
        if c[3] is not None:
            if is_c(c[3]) and cv(c[3]) == 'F':
                return ('wrong', e.loc, '%s receives its part in column order, the start vector is in row order' % show(v))
            return ('unknown', e.loc, 'element order not understood')
        if c[2] is not None:
            sh = norm(c[2])
            other = [t for t in subterms(sh) if t in V and t is not v]
            if other and not contains(sh, lambda t: t is v):
                return ('wrong', e.loc, '%s receives its part in the shape of %s' % (show(v), show(other[0])))
        return ('set', e.ep)

    for e in effs:
        if e.kind == 'nodesetitem' and e.a[0] in V:
            k = norm(e.a[1])
            whole = k.op == 'slice' and all(x is NONE for x in k.a) or k is C(Ellipsis) or k.op == 'ext' and k.a[0].endswith('Ellipsis')
            out[e.a[0]] = given(e.a[0], e.a[2], e) if whole else ('unknown', e.loc, 'only part of %s is assigned' % show(e.a[0]))
        elif e.kind == 'setattr' and e.a[0] in V and e.a[1] == 'x':
            out[e.a[0]] = given(e.a[0], e.a[2], e)
        elif e.kind == 'vcall' and e.a[0] in V and e.a[1] in ('set', '__setitem__', '__setattr__'):
            out[e.a[0]] = ('unknown', e.loc, 'how %s is assigned is not followed' % show(e.a[0]))
        elif e.kind == 'loop':
            for v in V:
                if out.get(v, ('', 0))[0] != 'set':
                    out[v] = ('unknown', e.loc, 'a loop is not followed')
        elif e.kind == 'fact':
            r = exact(e.a[0], e.a[1])
            if r is None:
                a = norm(e.a[0])
                for v in V:
                    if contains(a, lambda t: is_vec(t)) and contains(a, lambda t: t is v and v not in out) and v not in out and contains(
                            a, lambda t: t.op in ('val', 'attr') and t.a[0] is v) and \
                            not exact(e.a[0], not e.a[1]):
                        out[v] = ('unknown', e.loc, 'a comparison of %s with the vector is not understood' % show(v))
                continue
            for x, y in ((r[1], r[2]), (r[2], r[1])):
                y = steps(y)
                if y.op in ('val', 'attr') and y.a[0] in V:
                    v = y.a[0]
                    if out.get(v, ('', 0))[0] == 'set':
                        continue
                    g = given(v, x, e)
                    if g[0] == 'set' and r[0] == 'near':
                        g = ('near', e.loc, '%s is not set when it is merely near the requested point' % show(v))
                    out[v] = g
                    break
    return out


def at(p):
    return p.eff[-1].loc if p.eff else None


def evaluations(t, V):
    """(epoch, term) of every evaluation of something that is not one of the variables."""
    for x in subterms(t):
        if x.op == 'val' and x.a[0] not in V:
            yield (x.a[1] if len(x.a) > 1 and isinstance(x.a[1], int) else 0), x
        elif x.op == 'vcall' and x.a[1] in ('dr_wrt', 'lop', 'lmult_wrt', 'compute_dr_wrt', 'compute_r', 'rop', 'compute_lop', 'compute_rop') and x.a[0] not in V:
            yield (x.a[4] if len(x.a) > 4 and isinstance(x.a[4], int) else 0), x


def stepped(t):
    """The order of the blocks of a stacked term: list of (node, method, variable), or None."""
    t = norm(t)
    for x in [t] + list(subterms(t)):
        if x.op in ('np', 'sp') and x.a[0] in ('hstack', 'concatenate', 'block', 'bmat', 'column_stack', 'r_', 'c_'):
            l = norm(x.a[1][0][1])
            if l.op in ('list', 'tup') and l.a and all(isinstance(y, Term) for y in l.a):
                out = []
                for b in l.a:
                    d = set(y for y in subterms(b) if y.op == 'vcall' and y.a[1] in ('dr_wrt', 'lop', 'lmult_wrt') and y.a[2])
                    if len(d) != 1:
                        return None
                    d = d.pop()
                    ws = [w for w in d.a[2] if w.op in ('inst', 'new')]
                    if len(ws) != 1:
                        return None
                    out.append((d.a[0], d.a[1], ws[0]))
                return out
    return None


class Memory(object):
    """Slots the functions keep between calls."""

    def __init__(self, entry, ch):
        self.entry = entry
        self.slots = {}

    def is_slot(self, t):
        return t.op == 'attr' and t.a[0].op in ('fn', 'ref', 'cls', 'mod', 'bm') or t.op == 'phi'

    def slots_in(self, t):
        out = []

        def walk(x, seen):
            if not isinstance(x, Term):
                if isinstance(x, tuple):
                    for y in x:
                        walk(y, seen)
                return
            if x in seen:
                return
            seen.add(x)
            if self.is_slot(x):
                out.append(x)
                return
            for y in x.a:
                walk(y, seen)
        walk(norm_keep(t), set())
        return out

    def end(self, p, s):
        """Value of the slot at the end of the path."""
        if s.op == 'attr':
            return norm_keep(p.st.attrs.get((s.a[0], s.a[1]), s))
        if s.op == 'phi' and len(s.a) == 4 and s.a[1] == 'attr':
            return norm_keep(p.st.attrs.get((s.a[2], s.a[3]), s))
        if s.op == 'phi' and s.a[1] == 'global':
            return p.st.gov.get((cv(s.a[2]), cv(s.a[3])), s)
        # a variable of an enclosing function: look it up where the entry state has this very term
        for fid, (env, a, b, c) in self.entry.frames.items():
            for n, v in env.items():
                if v is s and fid in p.st.frames:
                    return p.st.frames[fid][0].get(n, s)
        for a, h in self.entry.heap.items():
            if h[0] == 'obj':
                for n, v in h[2]:
                    if v is s:
                        h2 = p.st.heap.get(a)
                        return dict(h2[2]).get(n, s) if h2 and h2[0] == 'obj' else None
        return None


def norm_keep(t):
    return norm(t)


def sentinel(t, is_vec):
    """A stored vector that no requested vector equals: it depends on the vector through a zero factor only."""
    t = norm(t)

    def dead(x):
        if x.op == 'bin' and x.a[0] in ('Mult', 'Mul') and any(is_c(y) and cv(y) == 0 for y in x.a[1:] if isinstance(y, Term)):
            return True
        return x.op == 'np' and x.a[0] in ('zeros_like', 'ones_like', 'full_like')
    if dead(t):
        return None            # zeros: a vector that may well be asked for
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        a, b = t.a[1], t.a[2]
        for x, y in ((a, b), (b, a)):
            if dead(norm(x)) and is_c(norm(y)):
                k = cv(norm(y))
                return not isinstance(k, (int, float)) or abs(k) > 1e6 or k != k
    if t is NONE:
        return True
    if t.op == 'np' and t.a[0] in ('full_like', 'full'):
        return None
    if t.op == 'ext' and t.a[0].split('.')[-1].lower() in ('nan', 'inf'):
        return True
    if t.op == 'bin' and contains(t, lambda x: x.op == 'ext' and x.a[0].split('.')[-1].lower() in ('nan', 'inf')):
        return True
    return None


def paired(info, mem, s, e, is_vec, V):
    """Does every path leave slot s (result) and slot e (vector) describing the same point?"""
    bad, und, n = [], [], 0
    for k, p, pos, kept, near, fresh in info:
        s1, e1 = mem.end(p, s), mem.end(p, e)
        n += 1
        if s1 is None or e1 is None:
            und.append((at(p), 'what is kept is not followed'))
            continue
        if s1 is s and e1 is e:
            continue
        there = is_vec(e1) or e1 is e and e in kept
        if e1 is not e and not there:
            if e1 in kept or steps(e1) in kept:
                there = True
        if not there:
            if e1 is e:
                bad.append((at(p), 'the kept result is replaced while the vector kept with it stays'))
            elif sentinel(e1, is_vec):
                pass
            else:
                und.append((at(p), 'the vector kept is not understood: %s' % show(e1)[:60]))
            continue
        if s1 is s:
            if e in kept:
                continue
            bad.append((at(p), 'the kept vector moves to the requested one while the result kept with it stays'))
            continue
        why = fresh(s1, 'the kept result')
        if why:
            (bad if why[0] == 'bad' else und).append((why[1], why[2]))
            continue
        other = [x for x in mem.slots_in(s1)]
        if other and not kept and not list(evaluations(s1, V)):
            und.append((at(p), 'the kept result is taken from elsewhere'))
    return bad, und, n


def closures(ctx, rep, hook, V, tag, res):
    for kw, out, entry, ch, asked in hook.calls:
        def is_vec(t):
            return steps(t) is asked if isinstance(t, Term) else False
        mem = Memory(entry, ch)
        pairs = set()
        info = []
        for k in CLOSURES:
            for p in out.get(k, ()):
                if p.outcome == 'raise':
                    continue
                pos = follow(p.eff, V, is_vec)
                eqs = [r + (e.loc,) for e in p.eff if e.kind == 'fact' for r in [exact(e.a[0], e.a[1])] if r]
                # kept vectors the requested one equals (or is near to)
                kept, near, dead = set(), set(), False
                for kind, a, b, loc in eqs:
                    for x, y in ((a, b), (b, a)):
                        if is_vec(x):
                            y = steps(y)
                            if mem.is_slot(y):
                                (kept if kind == 'eq' else near).add(y)
                            elif sentinel(y, is_vec):
                                dead = True         # the requested vector is the marker itself
                if dead:
                    continue
                late = max([v[1] for v in pos.values() if v[0] == 'set'] + [0])

                def fresh(t, what, p=p, pos=pos, late=late):
                    """None if every evaluation in t is at the requested point; else ('bad'|'und', loc, why)."""
                    evs = list(evaluations(norm(t), V))
                    if not evs:
                        return None
                    loc = at(p)
                    un = None
                    for v in V:
                        s = pos.get(v)
                        if s is None:
                            return ('bad', at(p), '%s is computed without setting %s from the vector the solver asked about' % (what, show(v)))
                        if s[0] in ('wrong', 'near'):
                            return ('bad', s[1], '%s: %s' % (what, s[2]))
                        if s[0] == 'unknown':
                            un = ('und', s[1], s[2])
                    if un:
                        return un
                    for ep, x in evs:
                        if ep < late and any(e.kind in ('nodesetitem', 'setattr') and e.ep >= ep and e.a[0] in V for e in p.eff):
                            return ('bad', at(p), '%s uses %s, evaluated before the variables were set' % (what, show(x)[:60]))
                    return None
                info.append((k, p, pos, kept, near, fresh))
                # what is handed out
                r = p.value
                slots = mem.slots_in(r) if isinstance(r, Term) else []
                why = fresh(r, {'fun': 'the value', 'jac': 'the gradient', 'hess': 'the Hessian', 'hessp': 'the Hessian product'}[k])
                if not slots and not list(evaluations(norm(r), V)):
                    why = ('und', at(p), 'what is handed to the solver is not understood: %s' % show(norm(r))[:60])
                if why is None and slots:
                    if kept:
                        for s in slots:
                            pairs.add((s, frozenset(kept)))
                    elif near:
                        why = ('bad', at(p), 'a kept result is handed out for a vector merely near the one it was computed at')
                    else:
                        touch = [e for e in p.eff if e.kind == 'fact' and contains(norm(e.a[0]), lambda t: t is asked) and contains(norm(e.a[0]), mem.is_slot)]
                        if not touch:
                            why = ('bad', at(p), 'a kept result is handed out without comparing the vector it was computed at')
                        elif all(exact(e.a[0], not e.a[1]) for e in touch):
                            why = ('bad', at(p), 'a kept result is handed out though the vector it was computed at differs')
                        else:
                            why = ('und', at(p), 'the comparison that allows a kept result is not understood')
                res.setdefault(('evaluate', k), [[], [], 0])
                res[('evaluate', k)][2] += 1
                if why:
                    res[('evaluate', k)][0 if why[0] == 'bad' else 1].append((why[1], why[2]))
                b = stepped(r) if isinstance(r, Term) else None
                if b is not None:
                    q = res.setdefault(('order', k), [[], [], 0])
                    q[2] += 1
                    if [x[2] for x in b] != V:
                        q[0].append((at(p), 'the blocks are the derivatives wrt %s instead of %s' % (', '.join(show(x[2]) for x in b), ', '.join(map(show, V)))))
        # what is kept describes one point
        for s, alts in sorted(pairs, key=lambda x: show(x[0])):
            cons = '%s' % (show(s).split('.')[-1] if s.op == 'attr' else s.op)
            q = res.setdefault(('kept', cons), [[], [], 0])
            best = None
            for e in alts:
                b, u, n = paired(info, mem, s, e, is_vec, V)
                if best is None or (len(b) > 0, len(u)) < (len(best[0]) > 0, len(best[1])):
                    best = (b, u, n)
            q[0] += best[0]
            q[1] += best[1]
            q[2] += best[2]
        # the start
        x0 = kw.get('x0')
        q = res.setdefault(('start', 'x0'), [[], [], 0])
        q[2] += 1
        x = steps(x0) if x0 is not None else None
        parts = None
        if x is not None and x.op == 'np' and x.a[0] in ('concatenate', 'hstack'):
            l = norm(x.a[1][0][1])
            if l.op in ('list', 'tup'):
                parts = [steps(y) for y in l.a]
                for y in l.a:
                    if contains(norm(y), lambda t: t.op == 'np' and t.a[0] in ('ravel', 'reshape', 'flatten') and dict(t.a[1][1:]).get('order') is C('F')):
                        q[0].append((None, 'the start vector is cut in column order'))
        if parts is None or not all(y.op in ('val', 'attr') for y in parts):
            q[1].append((None, 'start vector not understood: %s' % (show(x)[:60] if x is not None else '-')))
        elif [y.a[0] for y in parts] != V:
            q[0].append((None, 'the start vector is made of %s instead of %s' % (', '.join(show(y.a[0]) for y in parts), ', '.join(map(show, V)))))


def solution(ctx, rep, ps, V, res):
    q = res.setdefault(('solution', 'return'), [[], [], 0])
    for p in ps:
        if p.outcome != 'return':
            continue
        ix = [i for i, e in enumerate(p.eff) if e.kind == 'ext' and 'scipy.optimize.minimize' in show(e.a[0])]
        if not ix:
            continue
        q[2] += 1
        tail = p.eff[ix[-1]:]

        def is_vec(t):
            t = steps(t) if isinstance(t, Term) else t
            return isinstance(t, Term) and t.op in ('attr', 'item') and t.a[1] in ('x', C('x')) and isinstance(t.a[0], Term) and t.a[0].op == 'ecall'
        pos = follow(tail, V, is_vec)
        for v in V:
            s = pos.get(v)
            if s is None:
                q[0].append((at(p), '%s is not set to the solution' % show(v)))
            elif s[0] in ('wrong', 'near'):
                q[0].append((s[1], s[2]))
            elif s[0] == 'unknown':
                q[1].append((s[1], s[2]))


def check(ctx, rep):
    I = ctx.I
    f = fn_of(ctx, 'optimization.minimize')
    if f is None:
        rep.und('evaluate', 'minimize', None, 'not found')
        return
    loc = ctx.fnloc(f)
    fun = T('inst', I.ch, 'objective')
    res = {}
    total = 0
    for tag, n, m, cb in (('three variables', 3, T('sym', 'method'), NONE), ('with callback', 2, C('SLSQP'), T('sym', 'callback'))):
        V = [T('inst', I.ch, 'v%d' % (i + 1)) for i in range(n)]
        hook = Hook()
        I.ext_hooks = {'scipy.optimize.minimize': hook, 'numpy.array_equal': same_again(V)}
        try:
            ps = ctx.run(f, [fun, T('list', *V)], kwargs=dict(method=m, callback=cb),
                         prim=('dr_wrt', 'lop', '_call_on_changed', '__setitem__', 'lmult_wrt'))
        finally:
            I.ext_hooks = {}
        if ps is None:
            rep.und('evaluate', tag, loc, ctx.note)
            continue
        if not hook.calls:
            rep.und('evaluate', tag, loc, 'the solver is not called')
            continue
        total += sum(len(x) for c in hook.calls for x in c[1].values())
        closures(ctx, rep, hook, V, tag, res)
        solution(ctx, rep, ps, V, res)
    for (rule, cons), (bad, und, n) in sorted(res.items()):
        report(rep, rule, cons, loc, [(l or loc, w) for l, w in bad], und, '%d paths' % n)
    rep.count('paths', total)
    rep.assume.append('the solver does not change a vector it has asked about in place')
