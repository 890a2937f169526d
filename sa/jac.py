"""Local derivatives: for every operation, operand shape class and option, the reported matrix is compared with the
derivative of the reported value, both as closed forms of the array domain."""
import os

from .arr import *
from .arrval import Ev, Opaque, GENERIC
from .terms import T, C, NONE, TRUE, FALSE, is_c, cv, subterms, show as tshow
from .interp import mkis

N = [pv('n%d' % i) for i in range(6)]
ONE_ = pc(1)
THREE = pc(3)


def sym(name, dims):
    """Fresh input array."""
    axes = [newvar(d) for d in dims]
    return Arr(axes, ('x', name, tuple(lin(f) for f in axes)))


class Ev2(Ev):
    """Adds: len of a set of shapes; nodes built inside."""
    ctx = None

    def ev1(self, t):
        if t.op == 'len' and t.a[0].op == 'set':
            vs = [self.ev(x) for x in t.a[0].a]
            uniq = []
            for v in vs:
                rs = [self.compare('eq', v, u) for u in uniq]
                if any(r is None for r in rs):
                    raise Und('set')
                if not any(r is True for r in rs):
                    uniq.append(v)
            return scp(pc(len(uniq)))
        return Ev.ev1(self, t)


UNARY = [[N[0]], [N[0], N[1]], [ONE_], [ONE_, N[0]], [N[0], ONE_], [N[0], N[1], N[2]], [ONE_, ONE_]]
BINARY = [([N[0]], [N[0]]), ([N[0], N[1]], [N[0], N[1]]), ([ONE_], [ONE_]), ([N[0]], [ONE_]), ([ONE_], [N[0]]),
          ([N[0], N[1]], [N[1]]), ([N[1]], [N[0], N[1]]), ([N[0], N[1]], [ONE_]), ([ONE_], [N[0], N[1]]),
          ([N[0], ONE_], [N[1]]), ([N[1]], [N[0], ONE_]), ([N[0], ONE_], [ONE_, N[1]]), ([N[0], N[1]], [N[0], ONE_]),
          ([N[0], ONE_], [N[0], N[1]]), ([N[0], N[1], N[2]], [N[1], N[2]]), ([N[1], ONE_], [N[0], N[1], N[2]]),
          ([ONE_, ONE_], [ONE_]), ([ONE_, N[0]], [N[0]]), ([N[0], N[1]], [N[0], N[1]])]
UNARY += [[N[0], N[1], N[2], N[3]], [N[0], ONE_, N[1]], [ONE_, N[0], ONE_], [N[0], N[1], ONE_], [ONE_, N[0], N[1]]]
BINARY += [([N[0], N[1], N[2]], [N[0], N[1], N[2]]), ([N[0], ONE_, N[1]], [N[2], N[1]]), ([N[0], N[1], ONE_], [ONE_, N[2]]),
           ([N[0], ONE_, N[1]], [ONE_, N[2], ONE_]), ([N[0]], [N[1], N[2], N[0]]), ([ONE_], [N[0], N[1], N[2]])]
if os.environ.get('VERIF_TIER') == 'thorough':
    UNARY += [[N[0], ONE_, N[1], N[2]], [ONE_, N[0], ONE_, N[1]], [N[0], N[1], N[2], ONE_], [N[0], N[1], N[2], N[3], N[4]]]
    BINARY += [([N[0], N[1], N[2], N[3]], [N[2], N[3]]), ([N[0], N[1], N[2], N[3]], [N[0], ONE_, N[2], ONE_]), ([ONE_, N[0], ONE_], [N[1]]),
               ([N[1], ONE_], [N[0], N[2], N[1], N[3]]), ([N[0], ONE_, N[2], ONE_], [N[1], ONE_, N[3]])]


def ints(*xs):
    return [scp(pc(x)) for x in xs]


def opt_values(cls, name, shapes):
    """Option values tried for operands of the given shapes (None = no idea)."""
    nd = len(shapes[0]) if shapes else 1
    if name == 'axis':
        return ints(*range(-nd, nd)) if cls in ('Concatenate', 'rollaxis') else [None] + ints(*range(-nd, nd))
    if name in ('axis1', 'axis2'):
        return ints(*range(-nd, nd))
    if name == 'axes':
        import itertools as it
        return [None] + [tuple(ints(*p)) for p in it.permutations(range(nd))]
    if name == 'start':
        return ints(*range(-1, nd + 1))
    if name == 'k':
        return ints(0, 1, -1, 2, 3)
    if name == 'shift':
        return ints(1, -2, 3)
    if name == 'reps':
        return ints(2) + [tuple(ints(2, 3)), tuple(ints(2, 1, 3)), tuple(ints(1))]
    if name == 'repeats':
        return ints(2, 3)
    if name == 'ndims':
        return ints(1, 2, 3)
    if name == 'newshape':
        tot = pmul(*shapes[0])
        out = [(scp(pc(-1)),), scp(pc(-1)), (scp(pc(1)), scp(pc(-1))), tuple(scp(d) for d in reversed(shapes[0]))]
        return out
    if name in ('a_min', 'a_max'):
        return [sc(('o', name, ()))]
    if name in ('kind', 'order'):
        return [None]
    if name == 'idxs':
        n = pmul(*shapes[0])
        w = fresh(pv('m0'))
        return [Arr(((w,),), ix(pv(('ie', ('E', ('f', 'pick', ('o', 'idxs', (pv(w),)), ix(n))), ('P', n)))))]
    if name == 'mtx':
        n = pmul(*shapes[0])
        return [sym('mtx', [pmul(pv('m0'), shapes[0][-1]), n])]
    if name == 'preferred_shape':
        return [ABSENT, (scp(ONE_), scp(pv('m0')))]
    if name in ('axisa', 'axisb', 'axisc'):
        return ints(-1)
    return None


def scenarios(ctx, cls):
    """(description, {input: shape}, {option: value}, same) for a class."""
    I = ctx.I
    d, t = I.dterms(cls), I.terms(cls)
    inputs = inst_inputs(ctx, cls)
    d = inputs or d
    short = ctx.short(cls).split('.')[-1]
    shapes = []
    base = [ctx.short(c).split('.')[-1] for c in I.mro(cls) if c.op == 'cls' and c.a[0].startswith(I.pkg)]
    if inputs:
        shapes = [([N[0]], [N[1]], [N[2]]), ([N[0], N[1]], [N[0], N[1]], [N[0], N[1]]), ([N[0], N[1]], [N[2], N[1]], [N[3], N[1]]),
                  ([N[0], N[1]], [N[0], N[2]], [N[0], ONE_]), ([N[0], N[1], N[2]],) * 3, ([ONE_],) * 3, ([ONE_, N[0]],) * 3]
    elif len(d) == 1:
        if any(b in ('Inv', 'Det', 'LogAbsDet') for b in base):
            shapes = [([N[0], N[0]],), ([N[1], N[0], N[0]],), ([N[1], N[2], N[0], N[0]],), ([ONE_, ONE_],)]
        elif any(b in ('Diag',) for b in base):
            shapes = [([N[0]],), ([padd(N[0], pc(2)), padd(N[0], pc(2))],), ([padd(N[0], pc(2)), padd(N[0], pc(4))],), ([padd(N[0], pc(4)), padd(N[0], pc(2))],), ([ONE_],)]
        elif any(b in ('Rot90',) for b in base):
            shapes = [([N[0], N[1]],), ([N[0], N[1], N[2]],), ([N[0], ONE_],)]
        elif any(b == 'DiagFlat' for b in base):
            shapes = [([N[0]],), ([N[0], N[1]],), ([ONE_],), ([ONE_, N[0]],)]
        elif any(b == 'Interp3D' for b in base):
            shapes = []
        else:
            shapes = [(s,) for s in UNARY]
    elif len(d) == 2:
        if any(b == 'Cross' for b in base):
            shapes = [([N[0], THREE], [N[0], THREE])]
        elif any(b == 'dot' for b in base):
            shapes = [([N[0], N[1]], [N[1], N[2]]), ([N[0]], [N[0]]), ([N[0], N[1]], [N[1]]), ([N[0]], [N[0], N[1]]),
                      ([N[0], N[1], N[2]], [N[2], N[3]]), ([N[0], N[1]], [N[2], N[1], N[3]]), ([N[0], N[1], N[2]], [N[2]]),
                      ([ONE_, N[0]], [N[0], ONE_]), ([N[0], ONE_], [ONE_, N[1]]), ([ONE_], [ONE_]), ([N[0]], [N[1], N[0], N[2]]),
                      ([N[0], N[0]], [N[0], N[0]])]
        else:
            shapes = BINARY
    elif len(d) == 3:
        shapes = [([N[0]],) * 3]
    return expand(cls, short, base, d, t, inputs, with_equal(shapes))


def with_equal(shapes):
    """Adds, to every shape pattern with several symbolic sizes, the one where they are all equal."""
    out = list(shapes)
    for sh in shapes:
        e = tuple([N[0] if x in N else x for x in q] for q in sh)
        if list(e) != list(sh) and e not in out and list(e) not in out:
            out.append(e)
    return out


def expand(cls, short, base, d, t, inputs, shapes):
    """Option combinations and coinciding operands for every shape pattern."""
    out = []
    for sh in shapes:
        combos = [{}]
        for o in t:
            vals = opt_values(short, o, sh)
            if vals is None:
                combos = None
                break
            combos = [dict(c, **{o: v}) for c in combos for v in vals]
        if combos is None:
            return None
        if 'Cross' in base:
            combos = [dict(c, axis=None) for c in combos[:1]]
        combos = combos[:40]
        for c in combos:
            sames = [()]
            if len(d) == 2 and sh[0] == sh[1]:
                sames.append((d[1],))
            if inputs and sh[0] == sh[2]:
                sames.append((d[2],))
            for s in sames:
                desc = ', '.join('%s of shape (%s)' % (n, ','.join(pshow(x) for x in q)) for n, q in zip(d, sh))
                if s:
                    desc += ', both the same object'
                for o, v in c.items():
                    desc += ', %s=%s' % (o, optshow(v))
                out.append((desc, dict(zip(d, sh)), c, s))
    return out


def special_shapes(shp, comparisons):
    """Shapes at which a size comparison of the code, decided for generic sizes, goes the other way."""
    out = []
    names = list(shp)
    for op, d in comparisons:
        subs = []
        lone = [(m, c) for m, c in d if m]
        const = sum(c for m, c in d if not m)
        if len(lone) == 1 and len(lone[0][0]) == 1 and abs(lone[0][1]) == 1 and isinstance(lone[0][0][0], str):
            k = -const * lone[0][1]
            for v in ([k] if op == 'eq' else [k - 1, k, k + 1]):
                if 1 <= v <= 64:
                    subs.append((lone[0][0][0], pc(v)))
        elif len(lone) == 2 and const == 0 and all(len(m) == 1 and isinstance(m[0], str) for m, c in lone) and lone[0][1] == -lone[1][1]:
            subs.append((lone[1][0][0], pv(lone[0][0][0])))
        for n, v in subs:
            new = {}
            for x in names:
                new[x] = [v if q == pv(n) else q for q in shp[x]]
            if new != shp:
                out.append(tuple(new[x] for x in names))
    return out


def inst_inputs(ctx, cls):
    """Inputs of classes whose instances declare their own."""
    base = [ctx.short(c).split('.')[-1] for c in ctx.I.mro(cls) if c.op == 'cls' and c.a[0].startswith(ctx.I.pkg)]
    return ('m0', 'm1', 'm2') if 'Concatenate' in base else ()


class Absent(object):
    pass


ABSENT = Absent()


def optshow(v):
    if v is ABSENT:
        return 'absent'
    if v is None:
        return 'None'
    if isinstance(v, tuple):
        return '(' + ','.join(optshow(x) for x in v) + ')'
    if isinstance(v, Arr) and v.ndim == 0:
        return show(v.elem)
    return 'array'


def build_env(ctx, cls, shp, opts, same):
    s = ctx.inst(cls)
    env = {}
    arrs = {}
    for n, dims in shp.items():
        if n in same:
            continue
        arrs[n] = sym(n, dims)
    first = [n for n in shp if n not in same][0]
    for n in same:
        arrs[n] = arrs[first]
    for n, A in arrs.items():
        env[T('val', T('attr', s, n))] = A
        if inst_inputs(ctx, cls):
            env[T('attr', s, n)] = A
            env[T('attr', T('attr', s, n), 'r')] = A
    for o, v in opts.items():
        if v is not ABSENT:
            env[T('attr', s, o)] = v
    for o in list(opts) + list(shp):
        env[T('hasattr', s, o)] = opts.get(o) is not ABSENT
        env[T('hasattr', s, C(o))] = opts.get(o) is not ABSENT
    if 'a_min' in opts:
        pass
    return env, arrs


def assume_of(opts):
    if 'a_min' in opts and 'a_max' in opts and isinstance(opts['a_min'], Arr):
        return [('lt', opts['a_min'].elem, opts['a_max'].elem)]
    return []


def oc_attrs(ctx, cls, env):
    """Attributes the change hook sets to closed forms of the inputs."""
    s = ctx.inst(cls)
    out = {}
    ps = ctx.oc_paths(cls) or []
    for p in ps:
        if p.outcome == 'raise':
            continue
        for e in p.eff:
            if e.kind == 'setattr' and e.a[0] is s:
                nm, v = e.a[1], e.a[2]
                nm = nm if isinstance(nm, str) else cv(nm)
                k = T('attr', s, nm)
                if k in env:
                    continue
                out.setdefault(k, set()).add(v)
    return {k: list(v)[0] for k, v in out.items() if len(v) == 1}


class Outcome(object):
    def __init__(self, kind, detail='', path=None):
        self.kind, self.detail, self.path = kind, detail, path


def feasible(ev, p):
    """(possible, data conditions, undecided facts)"""
    conds = []
    unk = []
    for f, v in p.facts:
        if isinstance(f, tuple):
            continue
        r = ev.fact(f)
        if r is None:
            if f.op == 'hasattr' or f.op == 'in' or f.op == 'is':
                continue
            unk.append(f)
        elif isinstance(r, bool):
            if r != v:
                return False, conds, unk
        else:
            conds.append(r if v else ('not', r))
    return True, conds, unk


def irrelevant(f, p, ps):
    """The same result is returned whether the condition holds or not."""
    mine = dict((a, v) for a, v in p.facts if not isinstance(a, tuple))
    for q in ps:
        if q is not p and q.value is p.value and q.outcome == p.outcome:
            his = dict((a, v) for a, v in q.facts if not isinstance(a, tuple))
            if len(his) == len(mine) and all(a in his and (his[a] == v) != (a is f) for a, v in mine.items()):
                return True
    return False


def new_ev(ctx, env):
    e = Ev2(env)
    return e


def value_of(ctx, cls, env):
    """[(Arr, conds)] of compute_r in the scenario."""
    s = ctx.inst(cls)
    ps = ctx.r_paths(cls, inst_inputs(ctx, cls))
    if ps is None:
        raise Und('compute_r: ' + getattr(ctx, 'note', ''))
    for k, v in oc_attrs(ctx, cls, env).items():
        e = new_ev(ctx, env)
        try:
            env[k] = e.ev(v)
        except (Und, Refused):
            pass
    out = []
    refused = False
    for p in ps:
        ev = new_ev(ctx, env)
        ok, conds, unk = feasible(ev, p)
        if not ok:
            continue
        if p.outcome == 'raise':
            refused = True
            continue
        if p.value is NONE:
            raise Und('no value')
        try:
            v = ev.ev(p.value)
        except Refused:
            refused = True
            continue
        except Opaque:
            continue
        if isinstance(v, Sp):
            raise Und('sparse value')
        v = ev.num(v)
        if v.ndim == 0:
            v = Arr(((),), v.elem)
        out.append((v, conds, unk))
    if not out and refused:
        raise Refused('value')
    if not out:
        raise Und('no path gives a value')
    return out


def check(ctx, cls, d, scen):
    """Outcomes for one class, input and scenario: list of (status, aspect, message, path)."""
    desc, shp, opts, same = scen
    env, arrs = build_env(ctx, cls, shp, opts, same)
    s = ctx.inst(cls)
    try:
        vals = value_of(ctx, cls, env)
    except Refused:
        return []
    except Und as e:
        return [('und', 'value', 'value not representable: %s' % e, None)]
    if len(vals) != 1:
        return [('und', 'value', 'several value paths', None)]
    V, vconds, vunk = vals[0]
    env[T('val', s)] = V
    ps = ctx.dr_paths(cls, d, tuple(same) if d == [n for n in shp if n not in same][0] else (), inst_inputs(ctx, cls))
    if ps is None:
        return [('und', 'value', 'compute_dr_wrt: ' + getattr(ctx, 'note', ''), None)]
    name = d
    dims = shp[d]
    out = []
    try:
        spec = spec_jacobian(V, name, dims)
    except Und as e:
        spec = None
        specwhy = str(e)
    assume = assume_of(opts) + vconds
    seen = 0
    same_term = {}
    key = None
    for p in ps:
        if key is not None and same_term.get(key) == ():
            same_term[key] = out[n0:]
        ev = new_ev(ctx, env)
        ok, conds, unk = feasible(ev, p)
        unk = [f for f in unk if not irrelevant(f, p, ps)]
        if not ok or p.outcome == 'raise':
            if ok:
                seen += 1
            continue
        seen += 1
        if p.value is NONE:
            # no derivative: right only if the derivative vanishes
            if spec is None:
                out.append(('und', 'value', specwhy, p))
                continue
            try:
                ok, why = compare(Sp([], spec.shape), spec, assume + conds)
            except Und as e:
                out.append(('und', 'none', str(e), p))
                continue
            if ok:
                out.append(('ok', 'none', 'no derivative and none exists', p))
            else:
                out.append(('und' if unk else 'bad', 'none', 'reports no derivative, but ' + why.replace('is 0 but the derivative is', 'of the derivative: reported 0, derivative'), p))
            continue
        key = (p.value, repr(conds), bool(unk))
        if key in same_term:
            out += [(o[0], o[1], o[2], p) for o in same_term[key]]
            continue
        n0 = len(out)
        same_term[key] = ()
        try:
            J = ev.ev(p.value)
        except Refused as e:
            out.append(('und' if unk else 'bad', 'shape', 'the matrix cannot be built: %s' % e, p))
            continue
        except Opaque as e:
            out.append(('skip', 'value', str(e), p))
            continue
        except Und as e:
            out.append(('und', 'value', str(e), p))
            continue
        # shape
        want = (V.size(), pmul(*dims))
        if isinstance(J, bool) or J is None or isinstance(J, (str, tuple, list, Map)):
            out.append(('und', 'shape', 'result %r' % (J,), p))
            continue
        if isinstance(J, Arr) and J.ndim < 2:
            if want == (ONE_, ONE_) and J.size() == ONE_:
                out.append(('ok', 'shape', 'a number, for one element by one element', p))
            else:
                out.append(('bad', 'shape', 'a %d-dimensional array of shape (%s) instead of a (%s) by (%s) matrix' % (
                    J.ndim, ','.join(pshow(x) for x in J.shape()), pshow(want[0]), pshow(want[1])), p))
                continue
            J = Arr(((), ()), J.elem)
        else:
            got = tuple(J.shape() if isinstance(J, Arr) else J.shape)
            if got == want:
                out.append(('ok', 'shape', '(%s) by (%s)' % (pshow(got[0]), pshow(got[1])), p))
            elif any(isinstance(a, tuple) for q in got for a in atoms_of(q)):
                out.append(('und', 'shape', 'size depends on data', p))
                continue
            else:
                out.append(('und' if unk else 'bad', 'shape', 'matrix of shape (%s) instead of (%s) by (%s)' % (
                    ','.join(pshow(x) for x in got), pshow(want[0]), pshow(want[1])), p))
                continue
        if spec is None:
            out.append(('und', 'value', specwhy, p))
            continue
        try:
            ok, why = compare(to_sp(J), spec, assume + conds)
        except Und as e:
            out.append(('und', 'value', str(e), p))
            continue
        if ok:
            out.append(('ok', 'value', 'equals the derivative of the value', p))
        elif unk:
            out.append(('und', 'value', 'under a condition the analysis cannot decide: ' + why, p))
        else:
            out.append(('bad', 'value', why, p))
    if out and all(o[0] == 'skip' for o in out):
        out = [('und', 'value', 'only reuses remembered structure: ' + out[0][2], out[0][3])]
    return out


SPECIALS = 24
REORDER = {'Permute', 'Reorder', 'Reshape', 'Select', 'AtleastNd'}


def group(ctx, cls):
    """Property that speaks about the derivative values of a class."""
    I = ctx.I
    base = [ctx.short(c).split('.')[-1] for c in I.mro(cls) if c.op == 'cls' and c.a[0].startswith(I.pkg)]
    mod = ctx.short(cls).split('.')[0]
    if any(b in ('Det', 'LogAbsDet', 'Inv', 'SignLogAbsDet') for b in base):
        return 'C19'
    if any(b in ('SvdD', 'SvdV', 'SvdU', 'Pinv') for b in base):
        return 'C23'
    if any(b in REORDER for b in base) and 'Concatenate' not in base:
        return 'C08'
    if any(b in ('sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin', 'A_extremum', 'cumsum', 'dot', 'Cross', 'Concatenate', 'MatVecMult') for b in base):
        return 'C20'
    if mod == 'optimization_internal':
        return 'C04'
    if base[0] == 'tst':
        return 'demo'       # sample class of the module's main(), outside the offered operations
    return 'C05'


def all_results(ctx, prop=None, aspects=('value', 'shape', 'none')):
    """Yields (class, input, scenario description, outcome tuple)."""
    memo = ctx.__dict__.setdefault('_jac', {})
    for cls in ctx.I.chclasses:
        if prop is not None and group(ctx, cls) != prop:
            continue
        if not ctx.lib_class(cls) or ctx.abstract(cls):
            continue
        dts = inst_inputs(ctx, cls) or ctx.I.dterms(cls)
        if not dts:
            continue
        if cls not in memo:
            res = []
            sc_ = scenarios(ctx, cls)
            if sc_ is None:
                res.append((None, 'options', ('und', 'value', 'options of a kind the analysis does not know', None)))
            base = [ctx.short(c).split('.')[-1] for c in ctx.I.mro(cls) if c.op == 'cls' and c.a[0].startswith(ctx.I.pkg)]
            todo = list(sc_ or [])
            shapes = set(repr(list(x[1].values())) for x in todo)
            extra = 0
            while todo:
                scen = todo.pop(0)
                del GENERIC[:]
                for d in dts:
                    if d in scen[3]:
                        continue
                    try:
                        outs = check(ctx, cls, d, scen)
                    except Refused:
                        outs = []
                    except RecursionError:
                        outs = [('und', 'value', 'expression too deep', None)]
                    for o in outs:
                        res.append((d, scen[0], o))
                new = []
                for sh in special_shapes(scen[1], list(dict.fromkeys(GENERIC))):
                    if repr(list(sh)) not in shapes and extra < SPECIALS:
                        shapes.add(repr(list(sh)))
                        extra += 1
                        new.append(sh)
                if new:
                    todo += expand(cls, base[0], base, list(scen[1]), ctx.I.terms(cls), inst_inputs(ctx, cls), new) or []
            memo[cls] = res
        for d, desc, o in memo[cls]:
            yield cls, d, desc, o
