"""C06: no derivative silently missing or invented."""
from ._jacrule import fill, place
from ..core import NONE, T, subterms, show, mkis, C, tup
from .. import jac

EXPLAIN = ('(1) For every operation class, input, symbolic shape pattern and option value, each feasible path of compute_dr_wrt that '
           'returns nothing is matched against the symbolic derivative of the value, which must vanish. (2) For values outside the '
           'array domain: if every path returns nothing although the input flows into the value through no piecewise-constant function, '
           'the derivative is missing. (3) For an object that is none of the inputs, no path may return a derivative.')

FLAT = set(['floor', 'ceil', 'sign', 'round', 'rint', 'around', 'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal',
            'isnan', 'isinf', 'isfinite', 'isneginf', 'isposinf', 'all', 'any', 'logical_not', 'logical_and', 'logical_or', 'argmax',
            'argmin', 'argsort', 'nonzero', 'where', 'slogdet', 'linalg.slogdet', 'fix', 'trunc', 'linalg.matrix_rank', 'astype'])


def flat_inside(t):
    """The term mentions a piecewise-constant or unknown function."""
    for x in subterms(t):
        if x.op == 'np' and x.a[0] in FLAT:
            return True
        if x.op in ('cmp', 'call', 'opq', 'getattr', 'loop', 'phi'):
            return True
        if x.op == 'attr':
            # attributes that are set elsewhere
            pass
    return False


def mentions_object(a, w):
    """The condition speaks of the object itself rather than of its shape or value, which any object may have."""
    if a is w:
        return True
    if a.op in ('shape', 'size', 'val', 'ndim', 'len'):
        return False
    if a.op == 'attr' and a.a[0] is w and a.a[1] in ('shape', 'size', 'ndim', 'r', 'x'):
        return False
    return any(mentions_object(x, w) for x in a.a if hasattr(x, 'op')) or any(
        mentions_object(y, w) for x in a.a if isinstance(x, tuple) for y in x if hasattr(y, 'op'))


def check(ctx, rep):
    I = ctx.I
    seen = set()
    done = set()
    for cls, d, desc, (st, asp, msg, p) in jac.all_results(ctx, None):
        cons = '%s.%s' % (ctx.short(cls), d)
        loc = place(ctx, cls, p)
        if asp == 'none':
            if st == 'ok':
                rep.ok('missing-derivative', cons, loc, desc + ': ' + msg)
                done.add((cls, d))
            elif st == 'bad':
                rep.bad('missing-derivative', cons, loc, 'for %s: %s' % (desc, msg))
            else:
                rep.und('missing-derivative', cons + ' ' + desc, loc, msg)
        elif st == 'ok':
            rep.ok('missing-derivative', cons, loc, desc + ': a derivative is reported')
            done.add((cls, d))
    # values outside the domain
    for cls in I.chclasses:
        if not ctx.lib_class(cls) or ctx.abstract(cls):
            continue
        if ctx.own(cls, 'dr_wrt') is not None:
            continue        # replaces the chain-rule driver itself (see C04)
        ins = jac.inst_inputs(ctx, cls)
        for d in ins or I.dterms(cls):
            if (cls, d) in done:
                continue
            cons = '%s.%s' % (ctx.short(cls), d)
            m = ctx.method(cls, 'compute_dr_wrt')
            loc = ctx.fnloc(m)
            ps, rs = ctx.dr_paths(cls, d, (), ins), ctx.r_paths(cls, ins)
            if ps is None or rs is None:
                rep.und('missing-derivative', cons, loc, getattr(ctx, 'note', 'not analysed'))
                continue
            live = [p for p in ps if p.outcome != 'raise']
            if not live or any(p.value is not NONE for p in live):
                if live:
                    rep.ok('missing-derivative', cons, loc, 'some path reports a derivative (value outside the array domain)')
                continue
            s = ctx.inst(cls)
            vals = [p.value for p in rs if p.outcome != 'raise']
            flows = [v for v in vals if any(x is T('val', T('attr', s, d)) for x in subterms(v))]
            if vals and len(flows) == len(vals) and not any(flat_inside(v) for v in flows):
                rep.bad('missing-derivative', cons, loc, 'the value is computed from this input (%s) but no path reports a derivative'
                        % show(flows[0])[:120])
            else:
                rep.und('missing-derivative', cons, loc, 'no path reports a derivative; the value is not known to vary with the input')
    # objects that are not inputs
    for cls in I.chclasses:
        if not ctx.lib_class(cls):
            continue
        m = ctx.method(cls, 'compute_dr_wrt')
        if m is None:
            continue
        cons = ctx.short(cls)
        loc = ctx.fnloc(m)
        ins = jac.inst_inputs(ctx, cls)
        ps = ctx.other_paths(cls, ins)
        if ps is None:
            rep.und('invented-derivative', cons, loc, ctx.note)
            continue
        s = ctx.inst(cls)
        w = T('inst', I.ch, 'other', 'open')
        und = None
        bad = None
        for p in ps:
            if p.outcome == 'raise' or p.value is NONE:
                continue
            f = [(a, v) for a, v in p.facts if not isinstance(a, tuple)]
            if any(a.op == 'in' and v and a.a[0] is w for a, v in f):
                continue        # handed out from a memo keyed by the object: filled by a run of this method for it
            if any(a.op in ('is', 'eq') and v and any(x is w for x in a.a) for a, v in f):
                und = 'for an attribute of the node that may be an input declared by the instance'
                continue
            if any(mentions_object(a, w) for a, v in f):
                und = 'under a condition on the object'
                continue
            bad = p
        if bad is not None:
            rep.bad('invented-derivative', cons, place(ctx, cls, bad), 'reports %s for an object that is not an input' % show(bad.value)[:120])
        elif und:
            rep.und('invented-derivative', cons, loc, und)
        else:
            rep.ok('invented-derivative', cons, loc, 'nothing is reported for other objects (%d paths)' % len(ps))
