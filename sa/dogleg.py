"""Paths of the dogleg minimiser: before the loops, of one step search (inner loop body), of one iteration (outer loop body)."""
import ast

from .core import *
from .track import *
from .terms import *
from .interp import mkis, Infeasible, Unsupported, Budget


class Done(Exception):
    pass


def fresh(I, name):
    return T('fresh', name, len(I.st.eff))


def stub_set(names, ret=NONE):
    def stub(I, f, args, kwargs):
        if not args or args[0].op != 'ref':
            return None
        I.eff('stub', f, args[0])
        for n in names:
            I.setattr_(args[0], n, fresh(I, n), True)
        return ret
    return stub


def nothing(I, f, args, kwargs):
    return NONE


def clock(I, f, args, kwargs):
    return T('sym', 'timer')


def fn_of(ctx, qual):
    for k, i in enumerate(ctx.I.fns[:ctx.I.nload]):
        if i.qual.split('.', 1)[-1] == qual:
            return T('fn', k)
    return None


def flat(t):
    """A point regardless of its shape and wrapping."""
    while True:
        t = norm(t)
        if t.op == 'np' and t.a[0] in ('reshape', 'ravel', 'copy', 'asarray', 'array', 'atleast_1d', 'atleast_2d', 'squeeze', 'ascontiguousarray'):
            t = t.a[1][0][1]
        elif t.op == 'val' and t.a[0].op == 'new' and dict(t.a[0].a[1]).keys() == set(['x']):
            t = dict(t.a[0].a[1])['x']
        elif t.op == 'new' and dict(t.a[1]).keys() == set(['x']):
            t = dict(t.a[1])['x']
        elif t.op == 'item' and t.a[1].op == 'slice' and all(x is NONE for x in t.a[1].a):
            t = t.a[0]
        else:
            return t


def same_point(a, b):
    a, b = flat(a), flat(b)
    if a is b:
        return True
    if a.op == 'bin' and b.op == 'bin' and a.a[0] == b.a[0] == 'Add':
        return same_point(a.a[1], b.a[1]) and same_point(a.a[2], b.a[2]) or same_point(a.a[1], b.a[2]) and same_point(a.a[2], b.a[1])
    return False


# ---------------------------------------------------------------- numbers
class NoVal(Exception):
    pass


def num(t, env):
    """Value of a scalar term; env: (kind, term) or term -> number."""
    t = norm(t)
    if t in env:
        return env[t]
    op = t.op
    if op == 'c':
        v = cv(t)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return float(v)
        raise NoVal()
    if op == 'ext' and t.a[0] in ('numpy.inf', 'numpy.Inf'):
        return float('inf')
    if op == 'bin':
        if t.a[0] == 'Pow' and t.a[2] is C(2):
            k = vec(t.a[1], env)
            if k is not None:
                raise NoVal()
        a, b = num(t.a[1], env), num(t.a[2], env)
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: div(a, b), 'Pow': lambda: a ** b}[t.a[0]]()
        except (KeyError, OverflowError):
            raise NoVal()
    if op == 'un' and t.a[0] == 'USub':
        return -num(t.a[1], env)
    if op == 'builtin' and t.a[0] in ('max', 'min', 'float', 'abs'):
        xs = [num(x, env) for x in (t.a[1].a if isinstance(t.a[1], Term) and t.a[1].op == 'tup' else t.a[1])]
        if t.a[0] == 'float':
            return xs[0]
        return {'max': max, 'min': min, 'abs': lambda *a: abs(a[0])}[t.a[0]](*xs)
    if op == 'np':
        name, args = t.a[0], t.a[1]
        a0 = args[0][1]
        if name == 'linalg.norm':
            k = vec(a0, env)
            if k is not None:
                return env[('norm', k)]
        if name in ('max', 'amax') and norm(a0).op == 'np' and norm(a0).a[0] in ('abs', 'absolute', 'fabs'):
            k = vec(norm(a0).a[1][0][1], env)
            if k is not None:
                return env[('norm', k)]
        if name == 'sum':
            k = sq(a0, env)
            if k is not None:
                return env[('norm', k)] ** 2
        if name == 'dot' and len(args) == 2:
            k, k2 = vec(untr(a0), env), vec(args[1][1], env)
            if k is not None and k is k2:
                return env[('norm', k)] ** 2
        if name in ('sqrt', 'negative', 'abs', 'square', 'float64', 'asarray', 'isnan') and len(args) == 1:
            a = num(a0, env)
            if name == 'isnan':
                return float(a != a)
            return {'sqrt': lambda: a ** .5 if a >= 0 else float('nan'), 'negative': lambda: -a, 'abs': lambda: abs(a), 'square': lambda: a * a}.get(name, lambda: a)()
        if name in ('maximum', 'minimum', 'multiply', 'subtract', 'add', 'divide', 'true_divide') and len(args) == 2:
            a, b = num(a0, env), num(args[1][1], env)
            return {'maximum': lambda: max(a, b), 'minimum': lambda: min(a, b), 'multiply': lambda: a * b, 'subtract': lambda: a - b, 'add': lambda: a + b}.get(
                name, lambda: div(a, b))()
    raise NoVal()


def div(a, b):
    if b == 0:
        return float('nan') if a == 0 or a != a else float('inf') * (1 if a > 0 else -1)
    return a / b


def untr(t):
    t = norm(t)
    if t.op == 'np' and t.a[0] == 'transpose' and len(t.a[1]) == 1:
        return t.a[1][0][1]
    return t


def vec(t, env):
    """The known vector a term denotes (up to shape)."""
    k = flat(t)
    if k.op == 'np' and k.a[0] == 'negative':
        k = flat(k.a[1][0][1])
    return k if ('norm', k) in env else None


def sq(t, env):
    t = norm(t)
    if t.op == 'bin' and t.a[0] == 'Pow' and t.a[2] in (C(2), C(2.0)):
        return vec(t.a[1], env)
    if t.op == 'np' and t.a[0] == 'square':
        return vec(t.a[1][0][1], env)
    if t.op == 'bin' and t.a[0] == 'Mult' and vec(t.a[1], env) is not None and vec(t.a[1], env) is vec(t.a[2], env):
        return vec(t.a[1], env)
    return None


def fact_value(a, env):
    """Truth of a comparison under env; NoVal if not a comparison of known numbers."""
    a = norm(a)
    if a.op in ('lt', 'le', 'eq'):
        x, y = num(a.a[0], env), num(a.a[1], env)
        return {'lt': x < y, 'le': x <= y, 'eq': x == y}[a.op]
    if a.op == 'truth':
        return bool(num(a.a[0], env))
    raise NoVal()


def mentions(a, keys):
    ks = set()
    for k in keys:
        ks.add(k[1] if isinstance(k, tuple) else k)
    return contains(norm(a), lambda t: t in ks)


def consistent(facts, env, wild=()):
    """(True/False whether the path's comparisons can hold under env, number of relevant comparisons not understood).
    Unknown positive quantities are tried over several magnitudes."""
    rel = []
    for a, v in facts:
        if mentions(a, env.keys()):
            rel.append((norm(a), v))
    free = []
    for a, v in rel:
        for t in unknowns(a, env):
            if t not in free:
                free.append(t)
    if len(free) > 4:
        return True, len(rel)
    grids = [()]
    for t in free:
        grids = [g + (x,) for g in grids for x in (.01, .5, 1., 7., 100.)]
    best = None
    for g in grids:
        e = dict(env)
        e.update(zip(free, g))
        unk = 0
        ok = True
        for a, v in rel:
            try:
                if fact_value(a, e) != v:
                    ok = False
                    break
            except NoVal:
                unk += 1
        if ok and (best is None or unk < best):
            best = unk
    return (best is not None), best or 0


def unknowns(a, env):
    """Maximal opaque scalar subterms of a comparison that the known quantities do not determine."""
    out = []

    def go(t):
        t = norm(t)
        try:
            num(t, env)
            return
        except NoVal:
            pass
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
            if mentions(t, env.keys()):
                go(t.a[1])
                go(t.a[2])
            elif t.a[0] == 'Sub' or t.a[0] == 'Add' or t.a[0] in ('Mult', 'Div', 'Pow'):
                out.append(t)
        elif t.op == 'un':
            go(t.a[1])
        elif t.op == 'builtin' and t.a[0] in ('max', 'min', 'float', 'abs') and mentions(t, env.keys()):
            for x in (t.a[1].a if isinstance(t.a[1], Term) and t.a[1].op == 'tup' else t.a[1]):
                go(x)
        elif t.op == 'np' and t.a[0] in ('maximum', 'minimum', 'multiply', 'subtract', 'add', 'divide', 'sqrt', 'abs', 'negative') and mentions(t, env.keys()):
            for n, x in t.a[1]:
                go(x)
        elif not mentions(t, env.keys()) or t.op in ('sym', 'np', 'val', 'attr', 'fresh', 'phi', 'item', 'vcall', 'spm'):
            if not mentions(t, env.keys()):
                out.append(t)
    for t in a.a:
        if isinstance(t, Term):
            go(t)
    return out


class Dogleg(object):
    """Runs once per context; raises Unsupported/Budget where the code has another shape."""

    def __init__(self, ctx):
        I = ctx.I
        self.ctx = ctx
        f = fn_of(ctx, 'optimization_internal.minimize_dogleg')
        if f is None:
            raise Unsupported('minimize_dogleg not found')
        self.f = f
        self.loc = ctx.fnloc(f)
        S = lambda n: T('sym', n)
        self.fun = T('inst', I.ch, 'objective')
        self.vars = [T('inst', I.ch, 'v1'), T('inst', I.ch, 'v2')]
        self.kw = dict(disp=FALSE, maxiter=S('maxiter'), max_fevals=S('max_fevals'), e_1=S('e_1'), e_2=S('e_2'), e_3=S('e_3'), delta_0=S('delta_0'),
                       sparse_solver=S('solver'))
        self.on_step = S('on_step')
        self.args = [self.fun, T('list', *self.vars), self.on_step]
        info = I.fns[f.a[0]]
        loops = [n for n in ast.walk(info.node) if isinstance(n, ast.While)]
        if len(loops) != 2:
            raise Unsupported('expected the iteration loop and the step search inside it')
        inner = [n for n in loops if not any(isinstance(m, ast.While) for m in ast.walk(n) if m is not n)]
        outer = [n for n in loops if any(m is not n and isinstance(m, ast.While) for m in ast.walk(n))]
        if len(inner) != 1 or len(outer) != 1:
            raise Unsupported('expected the iteration loop and the step search inside it')
        self.inner, self.outer = inner[0], outer[0]
        self.state = None
        self.entries = []        # states at the iteration loop
        self.early = []          # paths that return before it
        self.Lin = None
        self.Lout = None
        self.run()

    def ref_obj(self, st):
        """The state object and the stacked objective at this point."""
        I = self.ctx.I
        env = st.frames[I.cur][0]
        so, ob = env.get('state'), env.get('obj')
        return so, ob

    def run(self):
        ctx, I = self.ctx, self.ctx.I
        me = self
        stubs = {'pif': nothing, 'timer': clock, 'setup_sparse_solver': lambda I, f, a, k: T('sym', 'solve'),
                 'updateJ': stub_set(['J']), 'updateAg': stub_set(['A', 'g']), 'update_step': stub_set(['_d_dl', 'delta', '_d_gn'])}
        I.stubs = self.stubs = stubs

        def on_setattr(I, o, name, v):
            if name == 'x' and I.is_node(o):
                I.eff('xset', o, I.st.epoch + 1, v)
                I.st.attrs[(o, 'fevals')] = fresh(I, 'fevals')
        I.on_setattr = self.setattr_hook = on_setattr
        I.max_paths_save = I.MAXPATHS
        base = self.setup_facts()
        try:
            # what happens up to the iteration loop
            def hook(kind, s, it):
                if s is me.outer:
                    me.entries.append((I.st.clone(), list(I.st.eff), I.cur))
                    raise Infeasible()
            I.loop_hook = hook
            ps = I.run(self.f, self.args, kwargs=dict(self.kw), facts=dict(base), prim=('on_changed', '_call_on_changed'))
            self.early = ps
            if not self.entries:
                raise Unsupported('the iteration loop is not reached')
            # one iteration, from any state
            I.loop_hook = None
            orig = I.loop_summary

            def summary(kind, s, it):
                r = orig(kind, s, it)
                if s is me.inner:
                    me.Lin = r[0]
                    me.in_cur = I.cur
                elif s is me.outer:
                    me.Lout = r[0]
                    me.out_cur = I.cur
                    raise Done()
                return r
            I.loop_summary = summary
            try:
                I.run(self.f, self.args, kwargs=dict(self.kw), facts=dict(base), prim=('on_changed', '_call_on_changed'))
            except Done:
                pass
            finally:
                del I.loop_summary
        finally:
            I.stubs = {}
            I.on_setattr = None
            I.loop_hook = None
            I.st = I.base
        if self.Lin is None or self.Lout is None:
            raise Unsupported('loops not summarised')
        locate(self)

    # ------------------------------------------------------------ reading states
    def attr(self, st, cur, o, name):
        I = self.ctx.I
        save = I.st, I.cur
        I.st, I.cur = st.clone(), cur
        try:
            return I.getattr_(o, name)
        finally:
            I.st, I.cur = save

    def setup_facts(self):
        return {mkis(self.on_step, NONE): False}


class Walk(object):
    """Follows X (the point the objective and the free variables are at) and K (the kept point) along the events of a path."""

    def __init__(self, d, st, cur, eff, X, K, R, synced=True):
        self.d = d
        self.X, self.K, self.synced = X, K, synced
        self.K0, self.R0 = K, R
        self.at = {}              # epoch -> point
        self.trials = []          # points evaluated that differ from the kept one
        self.bad = None
        self.moved = False
        self.evals = 0
        self.called = 0

    def go(self, eff):
        d = self.d
        for e in eff:
            k = e.kind
            if k == 'setattr' and e.a[0] is d.obj and e.a[1] == 'x':
                self.X = e.a[2]
                self.synced = False
            elif k == 'xset' and e.a[0] is d.obj:
                self.at[e.a[1]] = e.a[2]
            elif k == 'eval' and e.a[0] is d.obj:
                self.evals += 1
                self.synced = True
                if not same_point(self.X, self.K):
                    self.trials.append(self.X)
            elif k == 'vcall' and e.a[0] is d.obj and e.a[1] == 'on_changed':
                a = e.a[2][0] if e.a[2] else None
                if a is not None and (a is C('x') or a.op in ('tup', 'list', 'set') and C('x') in a.a):
                    self.synced = True
            elif k == 'vcall' and e.a[0] is d.obj and e.a[1] == '_call_on_changed':
                self.synced = True
            elif k == 'setobj' and e.a[0] is d.state and e.a[1] == d.pfield:
                if not same_point(e.a[2], self.K):
                    self.moved = True
                self.K = e.a[2]
            elif k == 'call' and e.a[0] is d.on_step:
                self.called += 1
                if not same_point(self.X, self.K):
                    self.bad = self.bad or (e.loc, "the user's callback runs while the free variables are not at the last kept point")
                elif not self.synced:
                    self.bad = self.bad or (e.loc, "the user's callback runs before the free variables were set to the kept point")
            elif k in ('setattr', 'setitem') and e.a[0] in d.vars and e.a[1] == 'x':
                self.bad = self.bad or (e.loc, 'a free variable is assigned by the search itself')
        return self

    def point_of(self, t):
        """The point a value of the objective was computed at."""
        t = flat(t)
        if t.op == 'val' and t.a[0] is self.d.obj:
            ep = t.a[1] if len(t.a) > 1 else 0
            best = None
            for k, v in self.at.items():
                if isinstance(ep, int) and k <= ep and (best is None or k > best[0]):
                    best = (k, v)
            return best[1] if best else 'before'
        return None


def locate(d):
    """The state object, the stacked objective and the fields the kept point and residual live in."""
    st, eff, cur = d.entries[0]
    env = st.frames[cur][0]
    d.state = d.obj = None
    for v in env.values():
        if v.op == 'ref' and st.heap[v.a[0]][0] == 'obj' and d.ctx.I.class_lookup(st.heap[v.a[0]][1], 'p') is not None:
            d.state = v
        elif v.op == 'new' and any(n == 'free_variables' for n, _ in v.a[1]):
            d.obj = v
    if d.state is None or d.obj is None:
        raise Unsupported('the state and the stacked objective are not recognised')
    fields = dict(st.heap[d.state.a[0]][2])
    p = d.attr(st, cur, d.state, 'p')
    r = d.attr(st, cur, d.state, 'r')
    d.pfield = next((n for n, v in fields.items() if v is p), None)
    d.rfield = next((n for n, v in fields.items() if v is r), None)
    if d.pfield is None or d.rfield is None or 'delta' not in fields or 'done' not in fields:
        raise Unsupported('kept point, residual, trust region or done flag not recognised')


def fields(d, st):
    return dict(st.heap[d.state.a[0]][2])


def xof(d, st):
    v = st.attrs.get((d.obj, 'x'))
    if v is not None:
        return v
    return dict(d.obj.a[1])['x']


def inner_loops(d):
    out = []
    for p in d.Lout.paths:
        for e in p.eff:
            if e.kind == 'loop' and e.a[0] not in out and any(q.eff is not None for q in e.a[0].paths) and e.a[0].entry is not None:
                if d.state.a[0] in e.a[0].entry.heap and (d.obj, 'x') in e.a[0].entry.attrs:
                    out.append(e.a[0])
    return out


def is_done(d, st):
    v = fields(d, st)['done']
    return v is TRUE


def _after_paths(self):
    """Paths through what follows the iteration loop (the loop itself by its summary)."""
    ctx, I = self.ctx, self.ctx.I
    me = self
    cached = (me.Lout, [p for p in me.Lout.paths if p.outcome != 'raise'], me.Lout.entry, me.Lout.entry.n)
    orig = I.loop_summary

    def summary(kind, s, it):
        return cached if s is me.outer else orig(kind, s, it)
    I.stubs = self.stubs
    I.on_setattr = self.setattr_hook
    I.loop_summary = summary
    try:
        return ctx.run(self.f, self.args, kwargs=dict(self.kw), facts=dict(self.setup_facts()), prim=('on_changed', '_call_on_changed'))
    finally:
        del I.loop_summary
        I.stubs = {}
        I.on_setattr = None


Dogleg.after_paths = _after_paths


def method_effects(ctx, d, name, extra=()):
    """Paths of a method of the state object run on an arbitrary state -> list of (facts, fields set, path) or None."""
    I = ctx.I
    st, eff, cur = d.entries[0]
    cls = st.heap[d.state.a[0]][1]
    f = I.method(cls, name)
    if f is None or f.op != 'fn':
        return None, None
    names = [n for n, v in st.heap[d.state.a[0]][2]]
    args = [None] + list(extra)

    def pre(I):
        args[0] = I.alloc('obj', cls, tuple((n, T('sym', 'state.' + n)) for n in names))
    I.stubs = {k: v for k, v in d.stubs.items() if k != name}
    I.stubs['updateGN'] = stub_set(['_d_gn'])
    try:
        ps = ctx.run(f, args, pre=pre, prim=('on_changed', '_call_on_changed', 'dr_wrt'))
    finally:
        I.stubs = {}
    return ps, f


def summaries(ctx, rep, d):
    """The summaries used for the step computation and the Jacobian update are sound."""
    allowed = {'update_step': set(['_d_dl', '_d_gn', 'delta', '_d_sd']), 'updateAg': set(['A', 'g', 'J']), 'updateJ': set(['J'])}
    o = T('inst', d.obj.a[0], 'obj')
    for name, ok in sorted(allowed.items()):
        ps, f = method_effects(ctx, d, name, [o] if name == 'updateJ' else [])
        if f is None:
            continue
        loc = ctx.fnloc(f)
        if ps is None:
            rep.und('summary', name, loc, ctx.note)
            continue
        bad, und = None, None
        for p in ps:
            fd = {norm(a): v for a, v in p.facts}
            for e in p.eff:
                if e.kind == 'setobj' and e.a[1] not in ok:
                    und = 'it also sets %s' % e.a[1]
                elif e.kind == 'setattr' and e.a[1] == 'x':
                    und = 'it moves the objective'
                elif e.kind == 'setobj' and e.a[1] == 'delta' and name == 'update_step':
                    if fd.get(mkis(T('sym', 'state.delta'), NONE)) is not True:
                        bad = (e.loc, 'computing a step changes a trust region that is already set')
        if bad:
            rep.bad('summary', name, bad[0], bad[1])
        elif und:
            rep.und('summary', name, loc, und)
        else:
            rep.ok('summary', name, loc, '%d paths set only %s' % (len(ps), ', '.join(sorted(ok))))


def expand(d, L, node, cur):
    """The paths of a loop body, those that reach its end split by whether the loop condition then holds ('continue') or not ('break')."""
    I = d.ctx.I
    out = []
    for q in L.paths:
        if q.outcome not in ('next', 'continue') or isinstance(node.test, ast.Constant):
            out.append(q)
            continue
        save = (I.st, I.cur, I.mod, list(I.stack), I.stubs)
        I.st, I.cur, I.mod = q.st.clone(), cur, I.fns[d.f.a[0]].mod
        I.stubs = d.stubs
        try:
            ps = I.explore(lambda: C(bool(I.truth(I.ev(node.test)))), I.st)
        except (Unsupported, Budget):
            out.append(q)
            continue
        finally:
            I.st, I.cur, I.mod, I.stack, I.stubs = save
        for p in ps:
            if p.outcome == 'raise':
                continue
            p.eff = list(q.eff) + list(p.eff)
            p.outcome = 'continue' if p.value is TRUE else 'break'
            p.value = None
            out.append(p)
    return out
