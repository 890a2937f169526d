"""C13: dogleg minimisation always stops, within the limits given."""
from ..core import *
from ..track import *
from ..terms import *
from ..dogleg import *
from .c12 import report, S01, NAN, INF, vals_in

EXPLAIN = ('Path analysis of the dogleg minimiser, one step search and one iteration from an arbitrary state.  For every path with a trial that is not an '
           'improvement (residual larger, equal, infinite or NaN) the trust region after the path must be smaller than before it; a path on which the '
           'search goes on must contain comparisons that fail once the trust region is used up (zero or NaN) and once the evaluation limit is reached, evaluated after the '
           'last evaluation; a path on which the iterations go on must have counted the iteration and compared the count with the limit; the gradient, '
           'step and improvement thresholds must be compared on every path they apply to.  Comparisons are evaluated on witness values that separate the cases.')


def verdict(paths, envs, what, keys):
    """paths on which `envs` (lists of witness environments) are consistent -> bad."""
    bad, und = [], []
    for q, loc, env in paths:
        ok, unk = consistent(q, env)
        if ok:
            (und if unk else bad).append((loc, what))
    return bad, und


def counting(ctx, rep, d):
    """Every evaluation of the stacked objective is counted."""
    I = ctx.I
    k = d.obj.a[0]
    f = ctx.method(k, 'compute_r')
    s = ctx.inst(k)
    ps = ctx.run(f, [s], selfterm=s)
    loc = ctx.fnloc(f)
    if ps is None:
        rep.und('evaluations', 'counting', loc, ctx.note)
        return
    bad, und = [], []
    for p in ps:
        if p.outcome == 'raise':
            continue
        v = p.st.attrs.get((s, 'fevals'))
        old = T('attr', s, 'fevals')
        if v is None:
            bad.append((loc, 'an evaluation is not counted'))
            continue
        first = any(norm(a).op == 'hasattr' and not b for a, b in p.facts)
        try:
            if first:
                x = num(v, {})
                if x < 1:
                    bad.append((loc, 'the first evaluation is not counted'))
            elif num(v, {old: 7.}) < 8.:
                bad.append((loc, 'an evaluation is not counted'))
        except NoVal:
            und.append((loc, 'count not understood: %s' % show(v)[:60]))
    report(rep, 'evaluations', 'counting', loc, bad, und, '%d paths count' % len(ps))


def check(ctx, rep):
    try:
        d = Dogleg(ctx)
    except (Unsupported, Budget) as e:
        rep.und('search', 'minimize_dogleg', None, str(e))
        return
    summaries(ctx, rep, d)
    counting(ctx, rep, d)
    e1, e2, e3 = T('sym', 'e_1'), T('sym', 'e_2'), T('sym', 'e_3')
    mi, mf = T('sym', 'maxiter'), T('sym', 'max_fevals')
    res = {}

    def hit(rule, cons, facts, env, loc, what, sens=()):
        r = res.setdefault((rule, cons), [[], [], 0])
        r[2] += 1
        ok, unk = consistent(facts, env)
        if ok:
            # a comparison that involves the quantity but is not understood leaves it open
            if unk or any(mentions(a, sens) and not known(a, env) for a, v in facts):
                r[1].append((loc, 'a comparison is not understood'))
            else:
                r[0].append((loc, what))

    def known(a, env):
        try:
            fact_value(norm(a), env)
            return True
        except NoVal:
            return False
    inner = []
    for L in inner_loops(d):
        e0 = fields(d, L.entry)
        K0, R0 = e0[d.pfield], e0[d.rfield]
        for q in expand(d, L, d.inner, d.in_cur):
            inner.append(q)
            if q.outcome == 'raise':
                continue
            w = Walk(d, q.st, d.in_cur, q.eff, K0, K0, R0).go(q.eff)
            f1 = fields(d, q.st)
            loc = q.eff[-1].loc if q.eff else d.loc
            kept = not same_point(w.K, K0)
            goes_on = q.outcome in ('next', 'continue')
            done = is_done(d, q.st)
            tv = [t for t in vals_in(d, q.facts) if w.point_of(t) not in (None, 'before') and any(same_point(w.point_of(t), x) for x in w.trials)]
            if goes_on and done:
                res.setdefault(('search', 'ends when done'), [[], [], 0])[0].append((loc, 'the step search goes on though the minimiser was told to stop'))
            d0 = [e.a[2] for e in q.eff if e.kind == 'setobj' and e.a[0] is d.state and e.a[1] == 'delta' and e.a[2].op == 'fresh']
            before = d0[0] if d0 else e0['delta']
            delta = f1['delta']
            step = None
            for t in (d.attr(q.st, d.in_cur, d.state, 'd_dl'),):
                step = flat(t)
            # a trial that is no improvement shrinks the trust region
            if w.trials and tv:
                r0, rt = flat(R0), flat(tv[0])
                r = res.setdefault(('shrink', 'rejected trial'), [[], [], 0])
                r[2] += 1
                for s0, s1 in S01:
                    if s1 < s0:
                        continue
                    env = {('norm', r0): s0 ** .5, ('norm', rt): s1 ** .5 if s1 == s1 else NAN}
                    if step is not None:
                        env[('norm', step)] = .5
                    ok, unk = consistent(q.facts, dict(env))
                    if not ok:
                        continue
                    env[norm(before)] = 1.
                    try:
                        v = num(delta, env)
                    except NoVal:
                        r[1].append((loc, 'trust region after the trial not understood: %s' % show(delta)[:80]))
                        continue
                    if not v < 1.:
                        (r[1] if unk else r[0]).append((loc, 'the trust region goes from 1 to %s after a trial whose sum of squares goes from %s to %s' % (v, s0, s1)))
            # the search cannot go on with nothing left
            if goes_on:
                for v in (0., NAN):
                    hit('search', 'ends when the trust region is used up', q.facts, {norm(delta): v}, loc,
                        'the step search goes on with a trust region of %s' % v, [delta])
                fe = q.st.attrs.get((d.obj, 'fevals'))
                if fe is None:
                    res.setdefault(('evaluations', 'step search'), [[], [], 0])[1].append((loc, 'the number of evaluations is not followed'))
                else:
                    for a, b in ((5., 5.), (6., 5.)):
                        hit('evaluations', 'step search', q.facts, {norm(fe): a, mf: b}, loc,
                            'another trial is made though %d of at most %d evaluations are used' % (a, b), [fe])
            # thresholds
            if w.trials and step is not None:
                knorm = flat(K0)
                hit('threshold', 'e_2 (step size)', q.facts, {('norm', step): 1e-9, ('norm', knorm): 1., e2: 1e-3}, loc,
                    'a step smaller than the threshold is tried', [step, e2])
            if kept and not done and not goes_on:
                g = flat(f1['g']) if 'g' in f1 else None
                if g is not None:
                    hit('threshold', 'e_1 (gradient)', q.facts, {('norm', g): 1e-9, e1: 1e-3}, loc,
                        'a kept point with a gradient below the threshold does not stop the minimiser', [g, e1])
                if tv:
                    hit('threshold', 'e_3 (improvement)', q.facts, {('norm', flat(R0)): 1., ('norm', flat(tv[0])): .95, e3: .5}, loc,
                        'a kept step that improves less than the threshold does not stop the minimiser', [e3])
    for (it, lst) in (('iteration', expand(d, d.Lout, d.outer, d.out_cur)),):
        f0 = fields(d, d.Lout.entry)
        i0 = f0.get('iteration')
        for p in lst:
            if p.outcome not in ('next', 'continue'):
                continue
            f1 = fields(d, p.st)
            loc = p.eff[-1].loc if p.eff else d.loc
            if is_done(d, p.st):
                continue
            if i0 is None:
                continue
            i1 = f1['iteration']
            try:
                v = num(i1, {norm(i0): 3.})
            except NoVal:
                res.setdefault(('limit', 'maxiter'), [[], [], 0])[1].append((loc, 'the iteration count is not understood'))
                continue
            if v <= 3.:
                res.setdefault(('limit', 'maxiter'), [[], [], 0])[0].append((loc, 'an iteration is not counted'))
                continue
            for a, b in ((3., 4.), (4., 4.), (2., 2.)):
                if num(i1, {norm(i0): a}) >= b:
                    hit('limit', 'maxiter', p.facts, {norm(i0): a, mi: b}, loc, 'iteration %d starts though the limit is %d' % (num(i1, {norm(i0): a}) + 1, b), [mi])
            fe = p.st.attrs.get((d.obj, 'fevals'))
            if fe is not None:
                for a, b in ((5., 5.), (6., 5.)):
                    hit('evaluations', 'iteration', p.facts, {norm(fe): a, mf: b}, loc, 'another iteration starts though %d of at most %d evaluations are used' % (a, b), [fe])
    for st, eff, cur in d.entries:
        f0 = fields(d, st)
        facts = [(e.a[0], e.a[1]) for e in eff if e.kind == 'fact']
        it = f0.get('iteration')
        loc = d.loc
        if it is not None and it.op == 'c':
            hit('limit', 'maxiter at the start', facts, {mi: float(cv(it))}, loc, 'an iteration starts though the limit is %s' % cv(it), [mi])
        if 'g' in f0:
            hit('threshold', 'e_1 at the start', facts, {('norm', flat(f0['g'])): 1e-9, e1: 1e-3}, loc,
                'a start point with a gradient below the threshold does not stop the minimiser', [e1])
        fe = st.attrs.get((d.obj, 'fevals')) or T('attr', d.obj, 'fevals')
        hit('evaluations', 'at the start', facts, {norm(fe): 1., mf: 1.}, loc, 'a trial is made though the evaluation limit is used up by the start point', [mf])
    for (rule, cons), (bad, und, n) in res.items():
        report(rep, rule, cons, d.loc, bad, und, '%d path/witness pairs' % n)
    rep.count('paths', len(inner) + len(d.Lout.paths))
    rep.assume.append('comparisons of the minimiser are monotone between the witness values tried; the step computation itself ends')
