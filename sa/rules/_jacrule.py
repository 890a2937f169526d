"""Local-derivative rules: one body, several properties."""
from .. import jac


def place(ctx, cls, p):
    m = ctx.method(cls, 'compute_dr_wrt')
    loc = ctx.fnloc(m) if m is not None else None
    if p is not None and getattr(p, 'loc', None) and loc:
        l = p.loc
        if len(l) >= 2 and isinstance(l[1], int) and l[0] != '?':
            return (l[0], l[1], loc[2])
    return loc


def fill(ctx, rep, prop, aspects, rule):
    """Obligations: (class, input, shapes, options, path)."""
    classes = set()
    for cls, d, desc, (st, asp, msg, p) in jac.all_results(ctx, prop):
        if asp not in aspects and st != 'und':
            continue
        cons = '%s.%s' % (ctx.short(cls), d)
        classes.add(cls)
        if st == 'skip':
            rep.count('paths_returning_remembered_structure')
            continue
        loc = place(ctx, cls, p)
        if st == 'ok':
            rep.ok(rule, cons, loc, '%s: %s' % (desc, msg))
        elif st == 'bad':
            rep.bad(rule, cons, loc, 'for %s: %s' % (desc, msg))
        elif asp in aspects or asp == 'value':
            rep.und(rule, cons + ' ' + desc, loc, msg)
    rep.stats['classes_analysed'] = len(classes)
    rep.assume.append('numpy and scipy.sparse functions do what their documentation says (transfer functions of the array domain)')
    rep.assume.append('array dimensions are symbolic (any size); ranks up to 3 and the listed option values are enumerated')
