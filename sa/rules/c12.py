"""C12: dogleg minimisation keeps exactly the steps that improve."""
from ..core import *
from ..track import *
from ..terms import *
from ..dogleg import *

EXPLAIN = ('Typestate analysis of the dogleg minimiser.  Along every path of one step search (inner loop body), of one iteration (outer loop body), up to '
           'the first iteration and after the last, the analysis follows the point the objective and the free variables are at and the kept point. '
           'Invariant at every loop head, callback and return: both are the same and the free variables have been set to it.  A path that moves the kept '
           'point must be one whose comparisons imply a strictly smaller sum of squares of the residual at the new point than at the old one (NaN and '
           'infinity included); a path that gives a trial up must be one whose comparisons exclude that; the residual compared against is the one at the '
           'kept point.  The distribution of the parameter vector over the free variables is followed for concrete lists of array, number and '
           'selection variables of symbolic size.')
NAN, INF = float('nan'), float('inf')
S01 = [(1., s) for s in (0., .25, .9, .999999, 1., 1.000001, 2., INF, NAN)] + [(4., s) for s in (0., 3.99, 4., 9., NAN)]


def residual_env(d, w, R0):
    """Residual terms on a path: old one and the ones at trial points."""
    return flat(R0)


def vals_in(d, facts):
    out = []
    for a, v in facts:
        for t in subterms(norm(a)):
            if t.op == 'val' and t.a[0] is d.obj and t not in out:
                out.append(t)
    return out


def body(ctx, rep, d):
    bad, und, n = [], [], {'kept': 0, 'given up': 0, 'no trial': 0}
    for L in inner_loops(d):
        e0 = fields(d, L.entry)
        K0, R0, X0 = e0[d.pfield], e0[d.rfield], xof(d, L.entry)
        for q in L.paths:
            if q.outcome == 'raise':
                continue
            w = Walk(d, q.st, d.in_cur, q.eff, K0, K0, R0).go(q.eff)     # invariant: at the kept point
            loc = q.eff[-1].loc if q.eff else d.loc
            if w.bad:
                bad.append(w.bad)
                continue
            if not same_point(w.X, w.K):
                if same_point(w.K, K0):
                    bad.append((loc, 'after a trial that is given up the free variables stay at the trial point'))
                else:
                    bad.append((loc, 'the kept point is not the point the free variables are at'))
                continue
            if not w.synced:
                bad.append((loc, 'the kept point was put back, but the free variables were not set from it before the search goes on or ends'))
                continue
            kept = not same_point(w.K, K0)
            tv = [t for t in vals_in(d, q.facts) if w.point_of(t) not in (None, 'before')]
            if kept:
                n['kept'] += 1
                new = [t for t in tv if same_point(w.point_of(t), w.K)]
                if not new:
                    if any(mentions(a, [t]) for t in vals_in(d, q.facts) for a, v in q.facts) or any(contains(norm(a), lambda t: t.op == 'vcall') for a, v in q.facts):
                        und.append((loc, 'the decision to keep the point is not understood'))
                    else:
                        bad.append((loc, 'the point is kept without comparing the residual there'))
                    continue
                r = decide(d, q, R0, new[0], True)
                if r:
                    (bad if r[0] == 'bad' else und).append((loc, r[1]))
                    continue
                f1 = fields(d, q.st)
                if not is_done(d, q.st):
                    at = w.point_of(f1[d.rfield])
                    if at is None:
                        und.append((loc, 'the residual stored with the kept point is not understood')) if flat(f1[d.rfield]) is not flat(R0) else bad.append(
                            (loc, 'the kept point moves but later trials are compared with the residual of the old one'))
                    elif at == 'before' or not same_point(at, w.K):
                        bad.append((loc, 'the residual later trials are compared with is not the one at the kept point'))
            elif w.trials:
                n['given up'] += 1
                new = [t for t in tv if any(same_point(w.point_of(t), x) for x in w.trials)]
                if not new:
                    und.append((loc, 'a trial is given up without a comparison of its residual'))
                    continue
                r = decide(d, q, R0, new[0], False)
                if r:
                    (bad if r[0] == 'bad' else und).append((loc, r[1]))
                    continue
                f1 = fields(d, q.st)
                if f1[d.rfield] is not e0[d.rfield] and flat(f1[d.rfield]) is not flat(e0[d.rfield]):
                    bad.append((loc, 'the stored residual changes though the trial is given up'))
            else:
                n['no trial'] += 1
    report(rep, 'step', 'step search', d.loc, bad, und, '%(kept)d keeping paths, %(given up)d giving-up paths, %(no trial)d paths without a trial' % n)
    rep.count('paths', sum(n.values()))


def report(rep, rule, cons, loc, bad, und, msg):
    if bad:
        rep.bad(rule, cons, bad[0][0] or loc, bad[0][1])
    elif und:
        rep.und(rule, cons, und[0][0] or loc, und[0][1])
    else:
        rep.ok(rule, cons, loc, msg)


def decide(d, q, R0, RT, kept):
    """A keeping path must exclude 'not lower'; a giving-up path must exclude 'lower'."""
    r0, rt = flat(R0), flat(RT)
    worst = None
    for s0, s1 in S01:
        lower = s1 < s0
        if lower == kept:
            continue
        env = {('norm', r0): s0 ** .5, ('norm', rt): s1 ** .5 if s1 == s1 else NAN}
        ok, unk = consistent(q.facts, env)
        if ok:
            if unk:
                worst = worst or ('und', 'a comparison of the residuals is not understood')
            elif kept:
                return ('bad', 'a step is kept though the sum of squared residuals goes from %s to %s' % (s0, s1))
            else:
                return ('bad', 'a step is given up though the sum of squared residuals goes from %s to %s' % (s0, s1))
    return worst


def iteration(ctx, rep, d):
    inner = set()
    for L in inner_loops(d):
        for q in L.paths:
            inner.update(id(e) for e in q.eff)
    bad, und = [], []
    n = 0
    for p in d.Lout.paths:
        if p.outcome == 'raise':
            continue
        n += 1
        e0 = fields(d, d.Lout.entry)
        for e in p.eff:
            if id(e) in inner:
                continue
            if e.kind == 'setattr' and e.a[0] is d.obj and e.a[1] == 'x' or e.kind == 'setobj' and e.a[0] is d.state and e.a[1] in (d.pfield, d.rfield):
                w = None
                und.append((e.loc, 'the point or residual is changed outside the step search'))
    report(rep, 'iteration', 'iteration', d.loc, bad, und, '%d paths leave point and residual to the step search' % n)


def ends(ctx, rep, d):
    """Before the first iteration and on return."""
    bad, und = [], []
    for st, eff, cur in d.entries:
        f0 = fields(d, st)
        X = dict(d.obj.a[1])['x']
        w = Walk(d, st, cur, eff, X, f0[d.pfield], None)
        w.X = X
        # calls before the kept point is first recorded see the initial point
        w.K = X
        w.go(eff)
        loc = d.loc
        if w.bad:
            bad.append(w.bad)
        if not same_point(w.X, f0[d.pfield]):
            bad.append((loc, 'the minimiser starts from a kept point that is not where the free variables are'))
        r = flat(f0[d.rfield])
        if r.op == 'val' and r.a[0] is d.obj:
            at = w.point_of(r)
            if at != 'before' and not same_point(at, f0[d.pfield]):
                bad.append((loc, 'the first residual is not the one at the start point'))
        elif r.op == 'phi' or r is NONE:
            bad.append((loc, 'no residual is recorded for the start point'))
        else:
            und.append((loc, 'first residual not understood: %s' % show(r)[:60]))
        parts = flat(X)
        if parts.op == 'np' and parts.a[0] in ('concatenate', 'hstack') and parts.a[1][0][1].op in ('list', 'tup'):
            got = [flat(t) for t in parts.a[1][0][1].a]
            want = [T('val', v) for v in d.vars]
            if got != want:
                if sorted(t.uid for t in got) == sorted(t.uid for t in want):
                    bad.append((loc, 'the parameter vector is not in the order of the free variables'))
                else:
                    und.append((loc, 'start vector not understood'))
        else:
            und.append((loc, 'start vector not understood: %s' % show(parts)[:60]))
    for p in d.early:
        if p.outcome != 'return':
            continue
        w = Walk(d, p.st, None, p.eff, None, None, None)
        X = dict(d.obj.a[1])['x']
        w.X = w.K = X
        w.go(p.eff)
        if w.bad:
            bad.append(w.bad)
        elif not same_point(w.X, w.K) or not w.synced and any(e.kind == 'setattr' and e.a[0] is d.obj for e in p.eff):
            bad.append((d.loc, 'the free variables are not at the kept point on return'))
    report(rep, 'ends', 'start and early return', d.loc, bad, und, '%d entries, %d early returns' % (len(d.entries), len(d.early)))


def after(ctx, rep, d):
    """Statements after the iteration loop."""
    I = ctx.I
    bad, und = [], []
    ps = d.after_paths()
    if ps is None:
        rep.und('ends', 'return', d.loc, 'not explored')
        return
    n = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        n += 1
        idx = max([i for i, e in enumerate(p.eff) if e.kind == 'loop'] or [-1])
        tail = p.eff[idx + 1:]
        for e in tail:
            if e.kind == 'setattr' and e.a[0] is d.obj and e.a[1] == 'x' or e.kind in ('setattr', 'setitem') and e.a[0] in d.vars:
                und.append((e.loc, 'the point is changed after the last iteration'))
    report(rep, 'ends', 'return', d.loc, bad, und, '%d ways out leave the point alone' % n)


# ---------------------------------------------------------------- distribution of the vector
PROBE = ''


def distribute(ctx, rep):
    I = ctx.I
    ks = [x for x in I.chclasses if ctx.short(x).endswith('.ChInputsStacked')]
    sel = [x for x in I.chclasses if ctx.short(x).endswith('.Select')]
    if not ks:
        rep.und('distribution', 'ChInputsStacked', None, 'not found')
        return
    k = ks[0]
    f = ctx.method(k, 'on_changed')
    s = ctx.inst(k)
    v = [T('inst', I.ch, 'v%d' % i) for i in range(3)]
    V = T('inst', I.ch, 'x')
    scen = [('three arrays', v, {}), ]
    if sel:
        a = T('inst', I.ch, 'whole')
        s1, s2 = T('inst', sel[0], 'sel1'), T('inst', sel[0], 'sel2')
        b = T('inst', I.ch, 'whole2')
        s3 = T('inst', sel[0], 'sel3')
        scen.append(('an array, a selection, an array', [v[0], s1, v[2]], {(s1, 'a'): a}))
        scen.append(('a selection of a selection and an array', [s2, v[1]], {(s2, 'a'): s3, (s3, 'a'): b}))
    for label, vs, more in scen:
        attrs = {(s, 'free_variables'): T('list', *vs), (s, 'x'): V}
        attrs.update(more)
        facts = {}
        I.closed = {s: ['x', 'obj', 'free_variables']}
        try:
            ps = ctx.run(f, [s, T('list', C('x'))], selfterm=s, attrs=attrs, facts=facts)
        finally:
            I.closed = {}
        loc = ctx.fnloc(f)
        if ps is None:
            rep.und('distribution', label, loc, ctx.note)
            continue
        bad, und = [], []
        for p in ps:
            if p.outcome == 'raise':
                continue
            one(ctx, p, s, V, vs, more, bad, und, loc)
        report(rep, 'distribution', label, loc, bad, und, '%d paths: each variable gets its own part' % len(ps))


def size_poly(t):
    """Sum of sizes, as a sorted tuple of variables, or None."""
    t = norm(t)
    if t is C(0):
        return ()
    if t.op == 'bin' and t.a[0] == 'Add':
        a, b = size_poly(t.a[1]), size_poly(t.a[2])
        return None if a is None or b is None else tuple(sorted(a + b, key=lambda x: x.uid))
    if t.op == 'size':
        x = t.a[0]
        x = x.a[0] if x.op == 'val' else x
        return (x,)
    if t.op == 'np' and t.a[0] == 'size':
        x = norm(t.a[1][0][1])
        return (x.a[0] if x.op == 'val' else x,)
    return None


def part(t, V):
    """(start, stop, rest) of the slice of the vector a term denotes."""
    shp = None
    while True:
        t = norm(t)
        if t.op == 'np' and t.a[0] == 'reshape':
            shp = shp or t.a[1][1][1]
            t = t.a[1][0][1]
        elif t.op == 'np' and t.a[0] in ('copy', 'array', 'asarray', 'ravel'):
            t = t.a[1][0][1]
        else:
            break
    if t.op == 'item':
        base = norm(t.a[0])
        while base.op == 'np' and base.a[0] in ('ravel', 'copy', 'asarray'):
            base = norm(base.a[1][0][1])
        if base.op == 'val' and base.a[0] is V:
            i = norm(t.a[1])
            if i.op == 'tup' and len(i.a) == 1:
                i = norm(i.a[0])
            if i.op == 'np' and i.a[0] == 'arange':
                a = [x for n, x in i.a[1]]
                a = [x for x in a if x is not NONE]
                if len(a) == 1:
                    return size_poly(C(0)), size_poly(a[0]), shp
                if len(a) >= 2:
                    return size_poly(a[0]), size_poly(a[1]), shp
            if i.op == 'slice':
                lo = C(0) if i.a[0] is NONE else i.a[0]
                if i.a[1] is not NONE:
                    return size_poly(lo), size_poly(i.a[1]), shp
    return None


def one(ctx, p, s, V, vs, more, bad, und, loc):
    sets = {}
    for e in flat_eff(p.eff):
        if e.kind == 'setattr' and e.a[1] == 'x' and e.a[0] is not s:
            sets.setdefault(e.a[0], []).append(e)
        elif e.kind == 'loop':
            und.append((e.loc, 'the distribution is not followed through a loop'))
            return
    pos = ()
    for x in vs:
        root = x
        chain = []
        while (root, 'a') in more:
            chain.append(root)
            root = more[(root, 'a')]
        es = sets.get(root)
        if not es:
            bad.append((loc, '%s does not receive its part of the parameter vector' % show(x)))
            return
        e = es[-1]
        want = (pos, tuple(sorted(pos + (x,), key=lambda t: t.uid)))
        pos = want[1]
        val = norm(e.a[2])
        if chain:
            pr = selected(val, root, chain, V)
            if isinstance(pr, str):
                (bad if pr.startswith('!') else und).append((e.loc, pr.lstrip('!')))
                continue
        else:
            pr = part(val, V)
        if pr is None:
            und.append((e.loc, 'what %s receives is not understood: %s' % (show(x), show(val)[:80])))
            continue
        if pr[0] is None or pr[1] is None:
            und.append((e.loc, 'bounds of the part %s receives are not sums of sizes' % show(x)))
            continue
        if (tuple(sorted(pr[0], key=lambda t: t.uid)), pr[1]) != want:
            bad.append((e.loc, '%s receives elements [%s, %s) of the parameter vector instead of its own part' % (
                show(x), '+'.join('size ' + show(t) for t in pr[0]) or '0', '+'.join('size ' + show(t) for t in pr[1]) or '0')))
            continue
        if not chain and pr[2] is not None:
            sh = norm(pr[2])
            ok = contains(sh, lambda t: t is x)
            other = [t for t in subterms(sh) if t in vs and t is not x]
            if other and not ok:
                bad.append((e.loc, '%s receives its part in the shape of %s' % (show(x), show(other[0]))))


def selected(val, root, chain, V):
    """The value given to an array of which (nested) selections are free: everything else kept, the selected elements its part."""
    if val.op != 'upd':
        return 'what the selected array receives is not understood: %s' % show(val)[:80]
    base, idx, new = norm(val.a[0]), val.a[1], val.a[2]
    b = base
    while b.op == 'np' and b.a[0] in ('copy', 'array', 'ravel', 'asarray'):
        b = norm(b.a[1][0][1])
    ok = b is T('attr', root, 'x') or b.op == 'val' and b.a[0] is root
    if not ok:
        return 'the elements not selected are not visibly kept: %s' % show(b)[:80]
    if isinstance(new, Term) and new.op == 'upd':
        # written through a flat view
        inner = new
        idx, new = inner.a[1], inner.a[2]
    ix = norm(idx)
    want = None
    for c in reversed(chain):
        i = T('attr', c, 'idxs')
        want = i if want is None else T('item', want, i)
    if ix.op == 'through':
        ix = norm(ix.a[-1])
    if ix.op == 'tup' and len(ix.a) == 1:
        ix = norm(ix.a[0])
    if ix is not norm(want):
        parts = set(t for t in subterms(ix) if t.op == 'attr' and t.a[1] == 'idxs')
        if parts and ix.op in ('attr', 'item'):
            return '!the elements written are not the selected ones: %s' % show(ix)[:80]
        return 'the elements written are not understood: %s' % show(ix)[:80]
    pr = part(new, V)
    return pr if pr is not None else 'the values written are not understood: %s' % show(new)[:80]


def flat_eff(effs):
    for e in effs:
        yield e


def columns(ctx, rep):
    """The Jacobian's column blocks are the derivatives with respect to the free variables, in their order."""
    I = ctx.I
    ks = [x for x in I.chclasses if ctx.short(x).endswith('.ChInputsStacked')]
    sel = [x for x in I.chclasses if ctx.short(x).endswith('.Select')]
    if not ks or not sel:
        return
    k = ks[0]
    f = ctx.method(k, 'dr_wrt')
    s = ctx.inst(k)
    if f is None:
        return
    v = [T('inst', I.ch, 'v0'), T('inst', sel[0], 'sel1'), T('inst', I.ch, 'v2')]
    a, X, O = T('inst', I.ch, 'whole'), T('inst', I.ch, 'x'), T('inst', I.ch, 'objective')
    attrs = {(s, 'free_variables'): T('list', *v), (s, 'x'): X, (s, 'obj'): O, (v[1], 'a'): a}
    I.closed = {s: ['x', 'obj', 'free_variables']}
    I.stubs = {'pif': nothing, 'timer': clock, 'dfs_do_func_on_graph': nothing}
    try:
        ps = ctx.run(f, [s, X], selfterm=s, attrs=attrs, prim=('dr_wrt', '_call_on_changed'))
    finally:
        I.closed = {}
        I.stubs = {}
    loc = ctx.fnloc(f)
    if ps is None:
        rep.und('columns', ctx.qual(f), loc, ctx.note)
        return
    bad, und = [], []
    n = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        n += 1
        r = norm(p.value)
        blocks = None
        for t in [r] + list(subterms(r)):
            if t.op in ('np', 'sp') and t.a[0] in ('hstack', 'concatenate') and norm(t.a[1][0][1]).op in ('list', 'tup'):
                blocks = list(norm(t.a[1][0][1]).a)
                break
        if blocks is None:
            und.append((loc, 'not a row of blocks: %s' % show(r)[:60]))
            continue
        got = []
        for b in blocks:
            d = [t for t in subterms(b) if t.op == 'vcall' and t.a[1] == 'dr_wrt']
            if len(d) != 1 or not d[0].a[2]:
                got = None
                break
            w = d[0].a[2][0]
            if w is a:
                cols = [t for t in subterms(b) if t is T('attr', v[1], 'idxs')]
                w = v[1] if cols else a
            got.append(w)
        if got is None:
            und.append((loc, 'a block is not one derivative'))
        elif got != v:
            bad.append((loc, 'the blocks are the derivatives wrt %s instead of %s' % (', '.join(map(show, got)), ', '.join(map(show, v)))))
    report(rep, 'columns', ctx.qual(f), loc, bad, und, '%d paths: one block per variable, in order, selected columns for selections' % n)


def check(ctx, rep):
    distribute(ctx, rep)
    columns(ctx, rep)
    try:
        d = Dogleg(ctx)
    except (Unsupported, Budget) as e:
        rep.und('step', 'minimize_dogleg', None, str(e))
        return
    summaries(ctx, rep, d)
    body(ctx, rep, d)
    iteration(ctx, rep, d)
    ends(ctx, rep, d)
    after(ctx, rep, d)
    rep.assume.append('the improvement a step is predicted to bring, by which the actual one is divided, is positive')
