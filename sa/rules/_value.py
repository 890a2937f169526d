"""Paths of the value accessor."""
from ..core import *
from ..track import *


def accessors(ctx):
    """Every distinct implementation of the value accessor: (class, function)."""
    I = ctx.I
    done = set()
    for c in [I.ch] + list(I.chclasses):
        if c is not I.ch and not ctx.lib_class(c):
            continue
        r = I.class_lookup(c, 'r')
        if r is None or r[0].op != 'prop':
            continue
        f = r[0].a[0]
        if f in done:
            continue
        done.add(f)
        yield c, f


def accessor_paths(ctx, c, f):
    s = T('inst', c, 'self', 'open')
    ps = ctx.run(f, [s], selfterm=s, prim=('compute_r', '_call_on_changed'), inline_props=('r',))
    return s, ps


def computed(v):
    """The term contains the result of compute_r."""
    return any(t.op == 'vcall' and len(t.a) > 1 and t.a[1] == 'compute_r' for t in subterms(v))


def state_of(p, s):
    """'empty' / 'full' / None: what the path knows about the kept value."""
    R = item(A(s, '_cache'), 'r')
    for a, v in p.facts:
        t = norm(a)
        if t.op == 'is' and R in t.a and NONE in t.a:
            return 'empty' if v else 'full'
        if t.op == 'in' and t.a[0] is C('r') and t.a[1] is A(s, '_cache'):
            return None
    return None
