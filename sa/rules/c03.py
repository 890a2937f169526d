"""C03: every holder of an input is notified of its changes."""
from ._setattr import *

EXPLAIN = ('Path-sensitive effect analysis of the change-tracking code. Every path of attribute assignment (first assignment, replacement by another '
           'node, re-assignment of the same node, plain data) is followed as a transfer function on the registration state "does the held node list '
           'this holder under this name"; the sweep over holders must reach every registered holder on every path; restoring a pickled node, adding '
           'an input, substitution and de-duplication must go through the same registration.')


class Contradiction(Exception):
    """The path assumes what the effects before it rule out."""


def transfer(effs, me, v, name, present, has, others):
    """Registration of `me` at node v along the effects.  present: entry exists; has: the name is in it; others: other names are in it.
    Returns (present, has, others, unknown)."""
    P = A(v, '_parents')
    E = T('item', P, me)
    N = T('item', E, C('varnames'))
    unk = asked = False
    nm = C(name)
    for e in effs:
        k = e.kind
        o = norm(e.a[0]) if e.a and isinstance(e.a[0], Term) else None
        if k == 'fact':
            t, val = norm(e.a[0]), e.a[1]
            if t.op == 'in' and t.a[0] is me and t.a[1] is P:
                if present is None:
                    present = val
                    if not val:
                        has, others = False, False
                elif present != val:
                    raise Contradiction()
            if t.op == 'truth' and t.a[0] is N:
                if val and others is None and has is False:
                    others = True
                if not val:
                    others = False
            elif N in subterms(t):
                L = T('len', N)
                if t.op == 'eq' and L in t.a and val and (has is True and C(1) in t.a or has is False and C(0) in t.a):
                    others = False
                elif t.op == 'eq' and N in t.a and val and has is True and any(x.op in ('set', 'setof') for x in t.a):
                    others = False
                elif others is None:
                    asked = True
        elif k == 'setitem' and o is P and norm(e.a[1]) is me:
            w = norm(e.a[2])
            vn = dict((cv(a), b) for a, b in w.a if is_c(a)).get('varnames') if w.op == 'dict' else None
            if vn is None:
                unk = True
                continue
            if present is not False and others is not False and not keeps(vn, N):
                others = 'lost'
            present, has = True, names_in(vn, nm)
        elif k == 'mut' and o is N:
            arg = norm(e.a[2][0]) if e.a[2] else None
            if e.a[1] == 'add' and arg is nm:
                has = True
            elif e.a[1] in ('remove', 'discard') and arg is nm:
                has = False
            elif e.a[1] == 'update' and arg is not None and names_in(arg, nm):
                has = True
            elif e.a[1] == 'clear':
                has = False
                others = 'lost'
            elif e.a[1] in ('add', 'remove', 'discard', 'update'):
                if arg is not None and is_c(arg):
                    continue
                unk = True
            elif e.a[1] not in ('copy',):
                unk = True
        elif k == 'setitem' and o is E and e.a[1] is C('varnames'):
            w = norm(e.a[2])
            if names_in(w, nm):
                has = True
                if not keeps(w, N) and others is not False:
                    others = 'lost'
            else:
                unk = True
        elif k == 'delitem' and o is P and norm(e.a[1]) is me or k == 'mut' and o is P and e.a[1] == 'pop' and e.a[2] and norm(e.a[2][0]) is me:
            if others is None and asked:
                unk = True
            elif others is True or others is None:
                others = 'lost'
            present, has = False, False
        elif k == 'mut' and o is P and e.a[1] == 'setdefault' and e.a[2] and norm(e.a[2][0]) is me:
            w = norm(e.a[2][1]) if len(e.a[2]) > 1 else NONE
            present = True
            unk = unk or True
        elif k in ('mut', 'setitem', 'delitem') and o is not None and (o is P or o is E or o is N):
            unk = True
        elif k == 'setattr' and o is v and e.a[1] == '_parents':
            unk = True
        elif k == 'loop' and any(x in (P, E, N) for q in e.a[0].paths for f in q.eff if f.kind in ('mut', 'setitem', 'delitem')
                                 for x in [norm(f.a[0])] if isinstance(f.a[0], Term)):
            unk = True
        elif k in ('call', 'rcall') and any(isinstance(x, Term) and me in subterms(norm(x)) for y in e.a if isinstance(y, tuple) for x in y):
            unk = True
    return present, has, others, unk


def stored(p, s, name):
    for e in reversed(p.eff):
        if e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == name and e.a[3]:
            return norm(e.a[2])
    return None


def reg_check(p, s, sc):
    try:
        return reg_check1(p, s, sc)
    except Contradiction:
        return None


def reg_check1(p, s, sc):
    label, c, name, kind, value, facts, old = sc
    if kind != 'input':
        return None
    v = stored(p, s, name)
    if v is None:
        return ('und', 'no store found')
    same = old is not None and v is norm(old)
    present, has, others, unk = transfer(p.eff, s, v, name, None, True if same else False, None)
    if others == 'lost':
        return ('und' if unk else 'bad', 'the node loses its registration under its other names')
    if not (present and has):
        return ('und' if unk else 'bad', 'after the assignment the new input does not list this node under the name assigned%s' % (
            ' (same object assigned again)' if same else ''))
    if old is not None and not same:
        o = norm(old)
        present, has, others, unk = transfer(p.eff, s, o, name, None, True, None)
        if present is False and not unk:
            # not registered, or removed
            if others == 'lost':
                return ('bad', 'dropping one use of an input removes the registration of the remaining uses')
            return None
        if unk:
            return ('und', 'registration at the old input not followed')
        if others == 'lost':
            return ('bad', 'dropping one use of an input removes the registration of the remaining uses')
        if has is not False:
            return ('bad', 'the replaced input keeps notifying the node under this name')
        if others is False:
            return ('bad', 'a replaced input without further uses keeps the node registered')
    return None


def restoring(ctx, rep, rule='restore'):
    I = ctx.I
    # restoring a pickled node
    done = set()
    for c in I.chclasses + [I.ch]:
        if c is not I.ch and not ctx.lib_class(c):
            continue
        f = ctx.method(c, '__setstate__')
        if f is None or f in done:
            continue
        done.add(f)
        k = c
        if f is ctx.method(I.ch, '__setstate__'):
            cand = [x for x in I.chclasses if ctx.lib_class(x) and len(I.dterms(x)) >= 2 and ctx.method(x, '__setstate__') is f]
            k = cand[0] if cand else c
        s = ctx.inst(k)
        d = T('sym', 'd')
        ps = ctx.run(f, [s, d], selfterm=s, prim=('clear_cache',))
        loc = ctx.fnloc(f)
        if ps is None:
            rep.und(rule, ctx.qual(f), loc, ctx.note)
            continue
        bad = None
        for p in ps:
            if p.outcome == 'raise':
                continue
            cov = set()
            why_ = None
            for e in p.eff:
                if e.kind == 'setattr' and norm(e.a[0]) is s and not e.a[3] and isinstance(e.a[1], str):
                    cov.add(e.a[1])
                if e.kind == 'loop':
                    L = e.a[0]
                    it = show(norm(L.iter)) if L.iter is not None else ''
                    el = norm(L.elem) if L.elem is not None else None
                    good = True
                    for q in L.paths:
                        if q.outcome == 'raise':
                            continue
                        sets = [x for x in q.eff if x.kind == 'setattr' and norm(x.a[0]) is s and not x.a[3]]
                        if not sets:
                            skip = [a for a, v in q.facts if a.op == 'in' and not v or a.op == 'hasattr' and not v or a.op == 'isch' and not v]
                            if not skip:
                                good = False
                    if good:
                        for dn in I.dterms(k):
                            if L.iter is not None and mentions_name(norm(L.iter), dn):
                                cov.add(dn)
            # names the path found absent from the restored state
            for a, v in p.facts:
                if a.op == 'in' and not v and len(a.a) > 1:
                    for dn in I.dterms(k):
                        if norm(a.a[0]) is C(dn):
                            cov.add(dn)
                elif a.op == 'hasattr' and not v and len(a.a) > 1 and a.a[1] in [x for dn in I.dterms(k) for x in (dn, C(dn))]:
                    n_ = a.a[1]
                    cov.add(n_ if isinstance(n_, str) else n_.a[0])
            miss = [dn for dn in I.dterms(k) if dn not in cov]
            if miss:
                bad = ('bad' if not opaque(p.eff) else 'und', 'restored inputs %s are not registered again' % ', '.join(miss))
            fresh = any(e.kind in ('setitem', 'setattr') and (e.kind == 'setitem' and e.a[1] is C('_parents') and fresh_map(e.a[2]) or
                                                              e.kind == 'setattr' and e.a[1] == '_parents' and fresh_map(e.a[2])) for e in p.eff)
            if not fresh and bad is None:
                bad = ('und', 'no fresh holder map seen')
            # the map must be in place before inputs register
        if bad is None:
            rep.ok(rule, ctx.qual(f), loc, 'every declared input of a restored node is assigned through the tracked assignment')
        elif bad[0] == 'bad':
            rep.bad(rule, ctx.qual(f), loc, bad[1])
        else:
            rep.und(rule, ctx.qual(f), loc, bad[1])


def other_entries(ctx, rep):
    I = ctx.I
    restoring(ctx, rep)
    # adding an input
    f = ctx.method(I.ch, 'add_dterm')
    if f is not None:
        cand = [x for x in I.chclasses if ctx.lib_class(x) and I.dterms(x) and ctx.method(x, 'add_dterm') is f]
        k = cand[0]
        s = ctx.inst(k)
        nm = C('new_input')
        v = T('inst', I.ch, 'value', 'open')
        ps = ctx.run(f, [s, nm, v], selfterm=s)
        loc = ctx.fnloc(f)
        if ps is None:
            rep.und('add-input', ctx.qual(f), loc, ctx.note)
        else:
            bad = None
            for p in ps:
                if p.outcome == 'raise':
                    continue
                decl = False
                reg = False
                for e in p.eff:
                    if e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == 'dterms':
                        w = norm(e.a[2])
                        decl = names_in(w, nm)
                        if not decl:
                            bad = ('und', 'declared inputs not followed')
                        elif w.op in ('list', 'tup', 'set') and not all(C(x) in w.a for x in I.dterms(k)) and not any(x.op == 'star' for x in w.a):
                            bad = ('bad', 'adding an input drops declared inputs')
                    if e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == 'new_input':
                        if e.a[3]:
                            bad = ('bad', 'the added input is stored without registration')
                        elif not decl and any(a is mkin(nm, k, ctx) and v2 for a, v2 in p.facts):
                            reg = True
                        elif not decl and not any(a.op == 'in' and v2 for a, v2 in p.facts):
                            bad = bad or ('bad', 'the input is assigned before its name is declared, so it is not registered')
                        else:
                            reg = True
                if not reg and bad is None:
                    bad = ('und' if opaque(p.eff) else 'bad', 'the added input is not assigned')
            if bad is None:
                rep.ok('add-input', ctx.qual(f), loc, 'declared before it is assigned; assigned through the tracked assignment')
            elif bad[0] == 'bad':
                rep.bad('add-input', ctx.qual(f), loc, bad[1])
            else:
                rep.und('add-input', ctx.qual(f), loc, bad[1])


def mkin(nm, k, ctx):
    return T('in', nm, tup([C(x) for x in ctx.I.dterms(k)]))


def mentions_name(t, dn):
    """Iterating t covers the declared input dn (if the node has it)."""
    if t.op in ('set', 'list', 'tup'):
        return C(dn) in t.a or any(x.op == 'star' and isinstance(x.a[1], Term) and mentions_name(x.a[1], dn) for x in t.a)
    if t.op == 'setop' and t.a[0] == 'intersection':
        parts = [x for x in t.a[1:] if isinstance(x, Term)]
        return all(mentions_name(x, dn) or dict_of_state(x) for x in parts)
    if t.op == 'setop' and t.a[0] == 'union':
        return any(mentions_name(x, dn) for x in t.a[1:] if isinstance(x, Term))
    if t.op in ('listof', 'sorted', 'setof', 'dictkeys', 'dictitems') or t.op == 'mcall' and t.a[1] in ('keys', 'items'):
        return mentions_name(t.a[0], dn)
    return dict_of_state(t)


def dict_of_state(t):
    while t.op in ('listof', 'sorted', 'setof', 'dictkeys', 'dictitems') or t.op == 'mcall' and t.a[1] in ('keys', 'items'):
        t = t.a[0]
    return t.op == 'sym' or t.op == 'attr' and t.a[1] == '__dict__'


def raw_stores(ctx, rep):
    """Nothing outside the tracked assignment writes an input slot directly."""
    I = ctx.I
    names = set(['x'])
    for c in I.chclasses:
        names |= set(I.dterms(c))
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i):
            continue
        for n in walk_own(i.node):
            r = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__setattr__' and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == 'object' and len(n.args) == 3:
                a = n.args[1]
                r = a.value if isinstance(a, ast.Constant) else None
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__':
                a = n.slice
                r = a.value if isinstance(a, ast.Constant) else None
            else:
                continue
            rep.count('raw_stores')
            if i.name in ('__setattr__',):
                continue
            if r in names:
                rep.bad('raw-store', q, (ctx.fnloc(f)[0], n.lineno, q), 'writes the input "%s" past the change tracking' % r)


def raw_effects(ctx, rep):
    """The same on the effects of the methods that change or evaluate a node (names computed at run time included)."""
    I = ctx.I
    cand = [x for x in I.chclasses if ctx.lib_class(x) and I.dterms(x) and I.terms(x) and ctx.own(x, '__setattr__') is None]
    k = cand[0]
    s = ctx.inst(k)
    node = T('inst', I.ch, 'value', 'open')
    jobs = [('replace', [T('inst', I.ch, 'old', 'open'), node], None), ('remove_redundancy', [T('sym', 'cache')], None),
            ('set', [], {I.dterms(k)[0]: node, I.terms(k)[0]: T('sym', 'v')}),
            ('__call__', [], {I.dterms(k)[0]: node}), ('__setitem__', [T('sym', 'key'), T('sym', 'v')], None)]
    runs = []
    for m, args, kw in jobs:
        f = ctx.method(k, m)
        if f is not None:
            runs.append((ctx.qual(f), ctx.fnloc(f), k, ctx.run(f, [s] + args, kwargs=kw, selfterm=s, prim=('clear_cache', '_superdot', 'dr_wrt', '__getitem__'))))
    f = ctx.method(I.ch, '__setitem__')
    if f is not None:
        sx = ctx.inst(I.ch)
        runs.append((ctx.qual(f) + ' (variable)', ctx.fnloc(f), I.ch, ctx.run(f, [sx, T('sym', 'key'), T('sym', 'v')], selfterm=sx, prim=('clear_cache',))))
    for c in I.chclasses:
        if not ctx.lib_class(c):
            continue
        if ctx.own(c, 'compute_r'):
            f = ctx.method(c, 'compute_r')
            runs.append((ctx.short(c) + '.compute_r', ctx.fnloc(f), c, ctx.r_paths(c)))
        if ctx.own(c, 'on_changed'):
            f = ctx.method(c, 'on_changed')
            runs.append((ctx.short(c) + '.on_changed', ctx.fnloc(f), c, ctx.oc_paths(c)))
    for q, loc, c, ps in runs:
        if ps is None:
            rep.und('raw-effect', q, loc, ctx.note)
            continue
        bad = None
        for p in ps:
            for e in flat(p.eff):
                if e.kind == 'setattr' and e.a[3]:
                    o, nm = norm(e.a[0]), e.a[1]
                    oc = I.cls_of(o) if isinstance(o, Term) else None
                    names = set(I.dterms(oc)) if oc is not None and oc is not I.ch else set(['x'])
                    if isinstance(nm, str) and (nm in names) or isinstance(nm, Term) and o is ctx.inst(c) and from_inputs(nm):
                        bad = (e, nm)
        if bad:
            rep.bad('raw-effect', q, bad[0].loc, 'writes the input "%s" of a node past the change tracking' % show(bad[1]))
        else:
            rep.ok('raw-effect', q, loc, '%d paths' % len(ps))


def from_inputs(t):
    return any(x.op == 'attr' and x.a[1] == 'dterms' for x in subterms(t))


def check(ctx, rep):
    raw_effects(ctx, rep)
    setattr_sweep(ctx, rep, 'registration', reg_check)
    put_spread(rep, spread(ctx, NONE), ('reach', 'skip'), 'clear_cache()')
    put_spread(rep, spread(ctx, ITR), ('reach', 'skip'), 'clear_cache(mark)')
    other_entries(ctx, rep)
    raw_stores(ctx, rep)
    rep.assume.append('holders are kept in weak maps: a holder that no longer exists needs no notification')
