"""C02: reused derivative structure is reused only while still valid."""
from ..core import *
from ..track import *
from .. import memo

EXPLAIN = ('Dependence analysis of everything kept between evaluations: for each operation and input, every path that returns something kept (an '
           'attribute that is neither input nor option, an entry of a table held by the operation, its class or its module) is matched with the paths '
           'that store it; all inputs, shapes, options and decisions the stored thing was computed from must be determined by the key it is found '
           'under, by a comparison on the reading path, or be dropped by the change hook on every path on which they may have changed.  Entries shared '
           'between operations must be determined by their key across all operations using the table.  The table of computed derivatives must be read and '
           'written under the variable asked for, and only with what is returned.')


def drs_table(ctx, rep):
    I = ctx.I
    f = ctx.method(I.ch, 'dr_wrt')
    if f is None:
        rep.und('derivative-table', 'Ch.dr_wrt', None, 'not found')
        return
    s = T('inst', I.ch, 'self', 'open')
    w = T('inst', I.ch, 'wrt', 'open')
    ps = ctx.run(f, [s, w], selfterm=s, prim=('_call_on_changed', '_compute_dr_wrt_sliced', 'compute_rop', 'dr_wrt', 'lmult_wrt', '_distinct_inputs'))
    loc = ctx.fnloc(f)
    if ps is None:
        rep.und('derivative-table', ctx.qual(f), loc, ctx.note)
        return
    drs = item(A(s, '_cache'), 'drs')
    worst = None
    n = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        n += 1
        v = norm(p.value)
        kept = [t for t in subterms(v) if t.op == 'item' and norm(t.a[0]) is drs]
        for t in kept:
            k = t.a[1]
            if k is not w and k is not T('id', w):
                worst = ('bad', 'a derivative found under %s is returned for the variable asked for' % show(k)[:80])
            elif not any(norm(a) is T('in', k, drs) and b for a, b in p.facts):
                worst = worst or ('und', 'a kept derivative is returned without asking whether there is one')
        for e in flat(p.eff):
            if e.kind == 'setitem' and norm(e.a[0]) is drs:
                k = norm(e.a[1])
                if k is T('id', w):
                    worst = ('bad', 'derivatives are kept under a number that another variable can get later')
                elif k is not w:
                    worst = ('bad', 'a derivative is kept under %s, which is not the variable asked for' % show(k)[:80])
                elif norm(e.a[2]) is not v:
                    worst = worst or ('und', 'what is kept is not what is returned')
    if worst and worst[0] == 'bad':
        rep.bad('derivative-table', ctx.qual(f), loc, worst[1])
    elif worst:
        rep.und('derivative-table', ctx.qual(f), loc, worst[1])
    else:
        rep.ok('derivative-table', ctx.qual(f), loc, '%d paths' % n)


def identity(ctx, rep):
    """Tables are keyed by nodes; nodes must compare by identity."""
    I = ctx.I
    for cls in I.chclasses:
        if not ctx.lib_class(cls):
            continue
        for nm in ('__eq__', '__hash__', '__cmp__'):
            hit = ctx.own(cls, nm)
            if hit is not None:
                f = ctx.method(cls, nm)
                rep.und('identity', '%s.%s' % (ctx.short(cls), nm), ctx.fnloc(f) if f is not None else None,
                        'nodes are keys of tables of derivatives; a comparison of their own is not followed')
    rep.ok('identity', 'Ch', None, '%d classes compare by identity' % len(I.chclasses))


def check(ctx, rep):
    I = ctx.I
    for cls in I.chclasses:
        if not ctx.lib_class(cls) or ctx.abstract(cls):
            continue
        for d in I.dterms(cls) or ('m0',):
            for cons, st, loc, msg in memo.analyse(ctx, cls, d):
                if st == 'ok':
                    rep.ok('kept', cons, loc, msg)
                elif st == 'und':
                    rep.und('kept', cons, loc, msg)
                else:
                    rep.bad('kept', cons, loc, msg)
        rep.count('operations')
    for cons, st, loc, msg in memo.analyse_shared(ctx):
        if st == 'ok':
            rep.ok('shared', cons, loc, msg)
        elif st == 'und':
            rep.und('shared', cons, loc, msg)
        else:
            rep.bad('shared', cons, loc, msg)
    drs_table(ctx, rep)
    identity(ctx, rep)
