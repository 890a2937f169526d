"""C18: change hooks run before anything is computed from changed inputs."""
from ._setattr import *

EXPLAIN = ('Path-sensitive must-pass-through analysis: every path of attribute assignment and of the sweep over holders must add the changed names to '
           'the pending names of the node concerned (keeping those already pending); the hook driver must hand all pending names to the hook before '
           'it forgets them, and may skip the hook only when none is pending; every path from an entry point (value, derivative in all modes) to '
           'compute_r, compute_dr_wrt or a kept result must pass the hook driver first.')

DRIVER = '_call_on_changed'


def dirty_check(p, s, sc):
    label, c, name, kind, value, facts, old = sc
    got = False
    for e in p.eff:
        d = dirties(e, s, C(name))
        if d == 1:
            got = True
        elif d == -1:
            return ('bad', 'names that were pending are thrown away by the assignment')
    if not got:
        if any(a.op == 'in' and v and norm(a.a[0]) is C(name) and norm(a.a[1]) is A(s, '_dirty_vars') for a, v in p.facts):
            return None                      # already pending
        return ('bad', 'the assigned name is not added to the pending names')
    return None


def driver(ctx, rep):
    I = ctx.I
    f = ctx.method(I.ch, DRIVER)
    if f is None:
        rep.und('driver', DRIVER, None, 'not found')
        return
    s = T('inst', I.ch, 'self', 'open')
    dv = A(s, '_dirty_vars')
    ps = ctx.run(f, [s], selfterm=s, prim=('on_changed', 'is_valid'))
    loc = ctx.fnloc(f)
    if ps is None:
        rep.und('driver', ctx.qual(f), loc, ctx.note)
        return
    bad = None
    n = 0
    for p in ps:
        if p.outcome == 'raise':
            continue
        n += 1
        empty = any(norm(a) is T('truth', dv) and not v or norm(a) is mkeq(T('len', dv), C(0)) and v for a, v in p.facts)
        ran = False
        snap = set([dv])
        reset = False
        for e in p.eff:
            if e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] == 'on_changed':
                arg = norm(e.a[2][0]) if e.a[2] else (norm(e.a[3][0][1]) if e.a[3] else None)
                if reset and not (arg is not None and arg is not dv):
                    bad = ('bad', 'the pending names are forgotten before the hook is given them')
                elif arg is not None and (any(keeps(arg, x) for x in snap)):
                    ran = True
                elif arg is not None and arg.op in ('set', 'list', 'tup') and not any(x.op == 'star' for x in arg.a):
                    bad = ('bad', 'the hook is not given the pending names')
                else:
                    ran = True
                    bad = bad or ('und', 'argument of the hook not followed')
            elif (e.kind == 'setattr' and norm(e.a[0]) is s and e.a[1] == '_dirty_vars' or e.kind == 'mut' and norm(e.a[0]) is dv and e.a[1] == 'clear'):
                if not ran and not empty:
                    reset = True
                    if e.kind == 'mut':
                        bad = ('bad', 'the pending names are forgotten before the hook is given them')
        if not ran and not empty and bad is None:
            bad = ('und' if opaque(p.eff) else 'bad', 'the hook is not run although names may be pending%s' % facts_text(p))
        if reset and ran and bad is None:
            bad = ('bad', 'the pending names are forgotten before the hook has run: if it fails, they are lost')
        if reset and not ran and bad is None:
            bad = ('bad', 'pending names are forgotten without a hook run')
    if bad is None:
        rep.ok('driver', ctx.qual(f), loc, '%d paths: the hook gets every pending name, and only then are they forgotten' % n)
    elif bad[0] == 'bad':
        rep.bad('driver', ctx.qual(f), loc, bad[1])
    else:
        rep.und('driver', ctx.qual(f), loc, bad[1])


def facts_text(p):
    fs = [(a, v) for a, v in p.facts if 'is_valid' not in show(a)]
    return ' (when %s is %s)' % (show(fs[-1][0]), fs[-1][1]) if fs else ''


ENTRIES = [('r', 0), ('dr_wrt', 1), ('lmult_wrt', 2), ('lop', 2), ('_compute_dr_wrt_sliced', 1), ('compute_rop', 2), ('compute_lop', 2)]
COMPUTE = ('compute_r', 'compute_dr_wrt')


def entries(ctx, rep):
    """On every path the driver comes before the first use of the node's computation or of a kept result."""
    I = ctx.I
    done = set()
    for c in [I.ch] + I.chclasses:
        if c is not I.ch and not ctx.lib_class(c):
            continue
        for m, na in ENTRIES:
            r = I.class_lookup(c, m)
            if r is None:
                continue
            f = r[0].a[0] if r[0].op == 'prop' else r[0]
            if f.op != 'fn' or f in done:
                continue
            done.add(f)
            s = T('inst', c, 'self', 'open')
            args = [s] + [T('inst', I.ch, 'wrt', 'open'), T('sym', 'factor')][:na]
            if m == 'lmult_wrt' and na == 2:
                args = [s, T('sym', 'lhs'), T('inst', I.ch, 'wrt', 'open')]
            prim = COMPUTE + (DRIVER, '_superdot', 'is_dr_wrt', '_distinct_inputs')
            # what an entry hands on to another entry of the same node is checked there
            others = tuple(x for x, _ in ENTRIES if x != m and x != 'r')
            facts = {mkis(args[-1], s): False} if na else {}
            ps = ctx.run(f, args, selfterm=s, prim=prim + others, inline_props=('r',) if m == 'r' else (), facts=None)
            loc = ctx.fnloc(f)
            if ps is None:
                rep.und('entry', ctx.qual(f), loc, ctx.note)
                continue
            bad = None
            for p in ps:
                b = scan(p.eff, s, p)
                if b:
                    bad = b
                if p.outcome == 'return' and b is None and p.value is not None and not seen_driver(p.eff, s):
                    v = norm(p.value)
                    if any(t is A(s, '_cache') for t in subterms(v)):
                        bad = (loc, 'a kept result is returned before the hook driver has run')
            rep.count('entry_paths', len(ps))
            if bad:
                rep.bad('entry', ctx.qual(f), bad[0], bad[1])
            else:
                rep.ok('entry', ctx.qual(f), loc, '%d paths' % len(ps))


def seen_driver(effs, s):
    return any(e.kind == 'vcall' and norm(e.a[0]) is s and e.a[1] == DRIVER for e in effs)


def scan(effs, s, p, seen=False):
    for e in effs:
        if e.kind == 'vcall' and norm(e.a[0]) is s:
            if e.a[1] == DRIVER:
                seen = True
            elif e.a[1] in COMPUTE and not seen:
                return (e.loc, '%s is reached before the hook driver has run' % e.a[1])
        if e.kind == 'readitem' and norm(e.a[0]) is A(s, '_cache') and e.a[1] is C('r') and not seen:
            return (e.loc, 'the kept value is consulted before the hook driver has run')
        if e.kind == 'loop':
            for q in e.a[0].paths:
                b = scan(q.eff, s, q, seen)
                if b:
                    return b
    return None


def foreign(ctx, rep):
    """compute_* of another node is never called past its entry points."""
    I = ctx.I
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i):
            continue
        for n in walk_own(i.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in COMPUTE:
                v = n.func.value
                rep.count('compute_calls')
                me = i.node.args.args[0].arg if i.node.args.args and i.owner is not None else None
                if isinstance(v, ast.Name) and v.id == me or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                    continue
                if isinstance(v, ast.Name) and i.owner is None and v.id in [a.arg for a in i.node.args.args]:
                    continue                  # a helper: judged where it is inlined
                if isinstance(v, ast.Name) and v.id in [c.a[0].split('.')[-1] for c in I.chclasses + [I.ch]]:
                    continue                  # Base.compute_r(self)
                # another node: its driver must be called in the same function
                if any(isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == DRIVER and ast.dump(m.func.value) == ast.dump(v)
                       for m in walk_own(i.node)):
                    continue
                rep.bad('foreign-call', q, (ctx.fnloc(f)[0], n.lineno, q), 'calls %s of another node directly, without its change hook' % n.func.attr)
    rep.ok('foreign-call', 'library', None, '%d calls of compute_r / compute_dr_wrt inspected' % rep.stats.get('compute_calls', 0))


def check(ctx, rep):
    setattr_sweep(ctx, rep, 'pending', dirty_check)
    put_spread(rep, spread(ctx, NONE), ('reach', 'skip', 'dirty'), 'clear_cache()')
    put_spread(rep, spread(ctx, ITR), ('reach', 'skip', 'dirty'), 'clear_cache(mark)')
    driver(ctx, rep)
    entries(ctx, rep)
    foreign(ctx, rep)
