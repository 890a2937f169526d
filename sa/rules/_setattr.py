"""Scenarios of attribute assignment, shared by the change-tracking properties."""
from ..core import *
from ..track import *


def reps(ctx):
    """(class, an input name, an option name): every class of the library whose assignment code can differ, and a few that share it."""
    I = ctx.I
    base = ctx.method(I.ch, '__setattr__')
    out = []
    plain = 0
    for c in I.chclasses:
        if not ctx.lib_class(c):
            continue
        ds, ts = I.dterms(c), I.terms(c)
        ds = [d for d in ds if I.class_lookup(c, d) is None or I.class_lookup(c, d)[0].op != 'prop']
        ts = [d for d in ts if I.class_lookup(c, d) is None or I.class_lookup(c, d)[0].op != 'prop']
        own = ctx.method(c, '__setattr__') is not base or any(
            ctx.method(c, m) is not ctx.method(I.ch, m) for m in ('clear_cache', '_invalidate_cacheprop_names'))
        if own or (ds and ts and plain < 3):
            plain += not own
            out.append((c, ds[0] if ds else None, ts[0] if ts else None))
    return out


ITR = T('sym', 'itr')


def scenarios(ctx):
    """(label, class, name, kind, value, facts, old) per scenario."""
    I = ctx.I
    val = T('inst', I.ch, 'value', 'open')
    arr = T('val', T('sym', 'an array'))
    yield ('variable.x', I.ch, 'x', 'x', T('sym', 'an array'), {}, None)
    for c, d, t in reps(ctx):
        s = ctx.inst(c)
        n = ctx.short(c)
        if d:
            ind = T('in', C(d), A(s, '__dict__'))
            yield ('%s.%s first' % (n, d), c, d, 'input', val, {ind: False}, None)
            yield ('%s.%s replaced' % (n, d), c, d, 'input', val, {ind: True, mkis(val, A(s, d)): False}, A(s, d))
            yield ('%s.%s same object' % (n, d), c, d, 'input', A(s, d), {ind: True}, A(s, d))
            yield ('%s.%s plain data' % (n, d), c, d, 'input', arr, {ind: False}, None)
        if t:
            yield ('%s.%s option' % (n, t), c, t, 'option', T('sym', 'v'), {}, None)


def paths(ctx, sc, itr=NONE):
    label, c, name, kind, value, facts, old = sc
    s = ctx.inst(c)
    f = ctx.method(c, '__setattr__')
    if f is None:
        return None, None, s
    fx = dict(facts)
    if itr is not NONE:
        fx[mkis(itr, NONE)] = False
    ps = ctx.run(f, [s, C(name), value, itr], selfterm=s, facts=fx, prim=('clear_cache', '_invalidate_cacheprop_names'))
    return ps, ctx.fnloc(f), s


def setattr_sweep(ctx, rep, rule, check):
    """check(path, s, sc) -> None if fine, else (status, message)."""
    for sc in scenarios(ctx):
        ps, loc, s = paths(ctx, sc)
        if ps is None:
            rep.und(rule, sc[0], loc, ctx.note if loc else 'no __setattr__')
            continue
        live = [p for p in ps if p.outcome != 'raise']
        rep.count('assignment_paths', len(live))
        worst = None
        if not live:
            worst = ('und', 'no path completes')
        for p in live:
            r = check(p, s, sc)
            if r is None:
                continue
            if r[0] == 'bad' and opaque(p.eff) is not None:
                r = ('und', r[1])
            if worst is None or r[0] == 'bad':
                worst = r
        if worst is None:
            rep.ok(rule, sc[0], loc, '%d paths' % len(live))
        elif worst[0] == 'bad':
            rep.bad(rule, sc[0], loc, worst[1])
        else:
            rep.und(rule, sc[0], loc, worst[1])


def put_spread(rep, res, aspects, label):
    S, loc = res
    for a in aspects:
        st, msg, l = S.res.get(a, ('und', 'not analysed', loc))
        if st == 'ok':
            rep.ok('spread-' + a, label, l or loc, 'holds on every path')
        elif st == 'und':
            rep.und('spread-' + a, label, l or loc, msg)
        else:
            rep.bad('spread-' + a, label, l or loc, msg)
