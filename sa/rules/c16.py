"""C16: no internal slips (undefined names, attributes, arity), no accepted argument silently ignored."""
import ast
from ..core import T, C, NONE, is_c, cv, subterms, walk_own, show
from ..interp import BUILTINS
from .. import extnames

EXPLAIN = ('Scope resolution of every name load in every library function and of every attribute of a repository module, '
           'of the external modules and of self; path-sensitive walk of every library function looking for paths that end in a '
           'NameError or in a wrong argument count for a repository callee; dataflow from every parameter of every public '
           'function and every declared input of every operation class to its result, branches or effects.')

HOOKS = set(['on_changed', 'compute_dr_wrt', 'compute_r', '__array__', '__setstate__', '__getstate__'])


def modfile(ctx, mod):
    import os
    m = ctx.I.mods.get(mod)
    return os.path.relpath(m.path, ctx.repo) if m else mod


def bound_in(fn):
    """Names bound in a function's own scope."""
    out = set()
    a = fn.args
    for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    glob = set()
    for n in walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
    return out, glob


def module_names(ctx, mod):
    m = ctx.I.mods.get(mod)
    out = set(m.env) if m else set()
    if m:
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
        st = [m.tree]
        while st:
            n = st.pop()
            for k in ast.iter_child_nodes(n):
                if isinstance(k, (ast.FunctionDef, ast.ClassDef)):
                    out.add(k.name)
                    continue
                if isinstance(k, ast.Lambda):
                    continue
                if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store):
                    out.add(k.id)
                elif isinstance(k, (ast.Import, ast.ImportFrom)):
                    for al in k.names:
                        out.add(al.asname or al.name.split('.')[0])
                st.append(k)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out.update(n.names)
    return out


def scopes(ctx, rep):
    I = ctx.I
    for mod, m in sorted(I.mods.items()):
        base = mod.split('.')[-1]
        if base.startswith('test_') or base.startswith('optional_test') or base in ('api_compatibility', 'np_tensordot'):
            continue
        glob = module_names(ctx, mod) | BUILTINS | set(['__name__', '__file__', '__doc__', '__package__', 'WindowsError', '__builtins__'])
        if m.state != 'done':
            continue

        def visit(node, env, where):
            for k in ast.iter_child_nodes(node):
                if isinstance(k, (ast.FunctionDef, ast.Lambda)):
                    own, g = bound_in(k)
                    w = where + '.' + getattr(k, 'name', '<lambda>')
                    for d in list(k.args.defaults) + [x for x in k.args.kw_defaults if x] + getattr(k, 'decorator_list', []):
                        visit(ast.Expression(d), env, where)
                    body = k.body if isinstance(k.body, list) else [k.body]
                    visit(ast.Module(body, []), env | own | g, w)
                elif isinstance(k, ast.ClassDef):
                    for d in k.bases + k.decorator_list:
                        visit(ast.Expression(d), env, where)
                    cl = set()
                    for s in k.body:
                        for x in [s] + list(walk_own(s)):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                cl.add(x.id)
                            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                                cl.add(x.name)
                    # class scope is visible to the class body only
                    for s in k.body:
                        if isinstance(s, ast.FunctionDef):
                            for d in list(s.args.defaults) + [x for x in s.args.kw_defaults if x] + s.decorator_list:
                                visit(ast.Expression(d), env | cl, where + '.' + k.name)
                            s = ast.FunctionDef(s.name, ast.arguments(getattr(s.args, 'posonlyargs', []), s.args.args, s.args.vararg, s.args.kwonlyargs, [], s.args.kwarg, []), s.body, [], None)
                            visit(ast.Module([s], []), env, where + '.' + k.name)
                        else:
                            visit(ast.Module([s], []), env | cl, where + '.' + k.name)
                elif isinstance(k, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    own = set(x.id for g in k.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
                    visit_expr(k, env | own, where)
                elif isinstance(k, ast.Name):
                    check(k, env, where)
                else:
                    visit(k, env, where)

        def visit_expr(k, env, where):
            for c in ast.iter_child_nodes(k):
                if isinstance(c, ast.Name):
                    check(c, env, where)
                elif isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    own = set(x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
                    visit_expr(c, env | own, where)
                else:
                    visit(ast.Module([c], []), env, where)

        def check(n, env, where):
            if not isinstance(n.ctx, ast.Load):
                return
            rep.count('name_loads')
            if n.id not in env:
                loc = (modfile(ctx, mod), n.lineno, where)
                if in_try_name_error(m.tree, n):
                    return
                rep.bad('undefined-name', '%s:%s' % (where, n.id), loc, 'name %r is not bound in any enclosing scope, the module or builtins' % n.id)

        n0 = len([x for x in rep.items if x[0] == 'violation'])
        visit(ast.Module([x for x in m.tree.body if not is_main_guard(x)], []), glob, mod)
        if len([x for x in rep.items if x[0] == 'violation']) == n0:
            rep.ok('undefined-name', mod, (modfile(ctx, mod), 1, mod), 'every name load resolves')


def is_main_guard(s):
    return isinstance(s, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(s.test))


def in_try_name_error(tree, name):
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(name is x for b in n.body for x in ast.walk(b)):
            for h in n.handlers:
                if h.type is None or any(isinstance(x, ast.Name) and x.id in ('NameError', 'Exception') for x in ast.walk(h.type)):
                    return True
    return False


def attributes(ctx, rep):
    """Attributes of modules (own and external)."""
    I = ctx.I
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i):
            continue
        own, g = bound_in(i.node)
        bad = 0
        for n in walk_own(i.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            chain = []
            x = n
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
            if not isinstance(x, ast.Name):
                continue
            root = None
            if x.id not in own:
                root = I.mods[i.mod].env.get(x.id) if i.mod in I.mods else None
            if root is None:
                # a local import
                for s in walk_own(i.node):
                    if isinstance(s, ast.Import):
                        for al in s.names:
                            if (al.asname or al.name.split('.')[0]) == x.id:
                                root = T('ext', al.name if al.asname else al.name.split('.')[0])
            if root is None:
                continue
            chain.reverse()
            if root.op == 'mod':
                rep.count('module_attribute_loads')
                mm = I.mods.get(root.a[0])
                if mm and chain[0] not in module_names(ctx, root.a[0]) and root.a[0] + '.' + chain[0] not in I.mods \
                        and not chain[0].startswith('__'):
                    bad += 1
                    rep.bad('undefined-attribute', '%s:%s.%s' % (q, x.id, chain[0]), (modfile(ctx, i.mod), n.lineno, q),
                            'module %s has no %s' % (root.a[0], chain[0]))
            elif root.op == 'ext':
                rep.count('external_attribute_loads')
                name = root.a[0]
                for c in chain:
                    names = extnames.NAMES.get(name)
                    if names is None:
                        break
                    if c not in names and name + '.' + c not in extnames.NAMES:
                        bad += 1
                        rep.bad('undefined-attribute', '%s:%s.%s' % (q, name, c), (modfile(ctx, i.mod), n.lineno, q),
                                'the installed %s has no %s' % (name, c))
                        break
                    name = name + '.' + c
        if not bad:
            rep.ok('undefined-attribute', q, (modfile(ctx, i.mod), i.node.lineno, q))


def self_attributes(ctx, rep):
    """self.X loads in operation classes: X is declared, defined, or assigned somewhere in the hierarchy."""
    I = ctx.I
    alln = {}
    for n, c in I.classes.items():
        t = T('cls', n)
        names = set(c.env)
        d = I.decl.get(t)
        if d:
            names |= set(d[0]) | set(d[1])
        for m in c.node.body if c.node is not None else []:
            if isinstance(m, ast.FunctionDef) and m.args.args:
                for k in ast.walk(m):
                    if isinstance(k, ast.Attribute) and isinstance(k.ctx, (ast.Store, ast.Del)):
                        names.add(k.attr)
                    elif isinstance(k, ast.Call) and len(k.args) >= 2:
                        fn = k.func.id if isinstance(k.func, ast.Name) else (k.func.attr if isinstance(k.func, ast.Attribute) else '')
                        if fn in ('setattr', '__setattr__', 'hasattr', 'getattr', 'add_dterm'):
                            for a in k.args[:2]:
                                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                    names.add(a.value)
                                if isinstance(a, ast.BinOp):
                                    names.add('*')
                    elif isinstance(k, ast.Constant) and isinstance(k.value, str):
                        names.add(k.value)          # string keys of __dict__ stores and similar
        for k, v in c.env.items():
            if v.op == 'fn':
                pass
        alln[t] = names
    assigned_elsewhere = set()
    for mod, m in I.mods.items():
        for k in ast.walk(m.tree):
            if isinstance(k, ast.Attribute) and isinstance(k.ctx, ast.Store):
                assigned_elsewhere.add(k.attr)
    for n, c in sorted(I.classes.items()):
        t = T('cls', n)
        if not I.is_ch_class(t) and any(b.op == 'ext' and b.a[0] != 'builtins.object' for b in I.mro(t)):
            continue
        ok = set(dir(object)) | set(['__dict__', '__name__'])
        for o in alln:
            if I.is_subclass(o, t) or I.is_subclass(t, o):
                ok |= alln[o]
        if I.is_ch_class(t):
            ok |= set(['label']) | assigned_elsewhere
            for nm in I.classes[I.pkg + '.ch.Ch'].env:
                ok.add(nm)
        bad = 0
        for m in c.node.body if c.node is not None else []:
            if not (isinstance(m, ast.FunctionDef) and m.args.args):
                continue
            if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in m.decorator_list):
                continue
            s = m.args.args[0].arg
            for k in walk_own(m):
                if isinstance(k, ast.Attribute) and isinstance(k.ctx, ast.Load) and isinstance(k.value, ast.Name) and k.value.id == s:
                    rep.count('self_attribute_loads')
                    if k.attr not in ok and not any(x.startswith('_make_') for x in [k.attr]):
                        bad += 1
                        rep.bad('undefined-self-attribute', '%s.%s:%s' % (n, m.name, k.attr), (modfile(ctx, c.mod), k.lineno, n + '.' + m.name),
                                'attribute %r is never declared, defined or assigned in the class hierarchy' % k.attr)
        if not bad:
            rep.ok('undefined-self-attribute', n, None)


def sym_args(ctx, i, cls):
    a = i.node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    args = []
    syms = {}
    for k, p in enumerate(pos):
        if k == 0 and cls is not None:
            if p == 'cls':
                args.append(cls)
            else:
                args.append(ctx.inst(cls) if ctx.I.is_ch_class(cls) else T('sym', 'self'))
            continue
        s = T('sym', 'arg:' + p)
        syms[p] = s
        args.append(s)
    kw = {}
    if a.vararg:
        args.append(T('starred', T('sym', 'arg:*' + a.vararg.arg)))
    if a.kwarg:
        kw['**'] = T('sym', 'arg:**' + a.kwarg.arg)
    for x in a.kwonlyargs:
        syms[x.arg] = T('sym', 'arg:' + x.arg)
        kw[x.arg] = syms[x.arg]
    return args, kw, syms


PRIMS = ('dr_wrt', 'lop', 'lmult_wrt', '_superdot', '_call_on_changed', 'compute_lop', 'compute_rop', '_compute_dr_wrt_sliced')
SKIP_RUN = set(['show_tree', 'show_tree_cache', 'show_tree_wrt', 'main', 'demo', 'test'])


def method_classes(ctx):
    """fn term -> class that defines it."""
    out = {}
    for n, c in ctx.I.classes.items():
        for k, v in c.env.items():
            if v.op in ('cm', 'sm', 'prop'):
                if v.op == 'sm':
                    out[v.a[0]] = None
                    continue
                v = v.a[0]
            if v.op == 'fn':
                out.setdefault(v, T('cls', n))
    return out


def walks(ctx, rep):
    """Walk every library function on symbolic arguments."""
    I = ctx.I
    mc = method_classes(ctx)
    for q, f, i in ctx.module_functions():
        if not ctx.lib_fn(i) or i.name in SKIP_RUN or i.isgen:
            continue
        nested = i.frame is not None and i.owner is None and f not in mc and not is_module_frame(ctx, i)
        if nested:
            continue
        cls = mc.get(f)
        if cls is not None and ctx.I.is_ch_class(cls) and cls is not I.ch and ctx.abstract(cls):
            continue
        args, kw, syms = sym_args(ctx, i, cls)
        selfterm = args[0] if args and cls is not None and args[0].op == 'inst' else None
        old = I.MAXPATHS, I.MAXSTEPS
        I.MAXPATHS, I.MAXSTEPS = 600, 25000
        try:
            ps = ctx.run(f, args, kwargs=kw, selfterm=selfterm, prim=set(PRIMS) - set([i.name]))
        except Exception as e:
            ps = None
            ctx.note = 'internal: %r' % (e,)
        finally:
            I.MAXPATHS, I.MAXSTEPS = old
        loc = (modfile(ctx, i.mod), i.node.lineno, q)
        if ps is None:
            rep.und('walk', q, loc, ctx.note)
            ps = []
        rep.count('functions_walked')
        rep.count('paths', len(ps))
        bad = 0
        for p in ps:
            if p.outcome == 'raise' and p.value.op == 'exc':
                kind = p.value.a[0]
                if kind == 'NameError' or (kind == 'TypeError' and len(p.value.a) > 1 and isinstance(p.value.a[1], str)
                                           and not p.value.a[1].startswith('unsupported')
                                           and p.loc and p.loc[1] != i.node.lineno):
                    fs = p.facts
                    if contradictory(fs):
                        continue
                    bad += 1
                    rep.bad('internal-slip', '%s:%s' % (q, show(p.value)), (p.loc[0], p.loc[1], q),
                            '%s %s on the path where %s' % (kind, p.value.a[1:] and p.value.a[1], '; '.join('%s is %s' % x for x in fs[:6])))
        if ps and not bad:
            rep.ok('internal-slip', q, loc, '%d paths' % len(ps))
        # parameters
        if i.name in HOOKS or i.name.startswith('_') or not public(ctx, f, i, cls):
            continue
        if ps and all(p.outcome == 'raise' for p in ps):
            continue
        mention = set()
        for p in ps:
            if p.outcome == 'raise':
                for a, v in p.facts:
                    subterms(a, mention)
                continue
            if p.value is not None:
                subterms(p.value, mention)
            for e in p.eff:
                collect(e, mention)
        read = set(x.id for b in (i.node.body if isinstance(i.node.body, list) else [i.node.body]) for x in ast.walk(b)
                   if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))
        for pn, s in syms.items():
            used = (s in mention) if ps else (pn in read)
            if not used and closure_mentions(ctx, mention, pn):
                used = True
            if used:
                rep.ok('argument-used', '%s(%s)' % (q, pn), loc)
            else:
                rep.bad('argument-ignored', '%s(%s)' % (q, pn), loc, 'the argument reaches neither the result, a branch nor an effect')
        for va in (i.node.args.vararg, i.node.args.kwarg):
            if va is not None and va.arg not in read and not (ps and all(p.outcome == 'raise' for p in ps)):
                rep.bad('argument-ignored', '%s(*%s)' % (q, va.arg), loc, 'further arguments are accepted and never read')


def collect(e, mention):
    for x in e.a:
        if hasattr(x, 'paths'):
            for p in x.paths:
                for y in p.eff:
                    collect(y, mention)
                if p.value is not None and hasattr(p.value, 'op'):
                    subterms(p.value, mention)
            if x.iter is not None:
                subterms(x.iter, mention)
            for v in x.appends.values():
                for y in v:
                    subterms(y, mention)
        elif hasattr(x, 'kind'):
            collect(x, mention)
        elif hasattr(x, 'op') or isinstance(x, tuple):
            subterms(x, mention)


def public(ctx, f, i, cls):
    I = ctx.I
    if cls is not None:
        return True
    for m in ('', '.ch', '.ch_ops', '.reordering', '.linalg', '.logic', '.optimization', '.extras', '.ch_random'):
        mm = I.mods.get(I.pkg + m)
        if mm is not None and mm.env.get(i.name) is f:
            al = I.names_of(mm.env['__all__']) if '__all__' in mm.env else None
            if al is None or i.name in al:
                return True
    return i.name == 'minimize_dogleg'


def is_module_frame(ctx, i):
    fr = ctx.I.base.frames.get(i.frame)
    return fr is None or fr[1] is None


def contradictory(facts):
    seen = {}
    for a, v in facts:
        if seen.setdefault(a, v) != v:
            return True
    return False


def inputs_used(ctx, rep):
    """Every declared input of an operation reaches its value (or a hook that prepares it)."""
    I = ctx.I
    for cls in I.chclasses:
        if ctx.abstract(cls) or I.decl.get(cls) is None:
            continue
        s = ctx.inst(cls)
        mention = set()
        miss = False
        for ps in (ctx.r_paths(cls), ctx.oc_paths(cls)):
            if ps is None:
                miss = True
                continue
            for p in ps:
                if p.value is not None:
                    subterms(p.value, mention)
                for e in p.eff:
                    if e.kind not in ('read', 'eval'):
                        collect(e, mention)
                for k, v in p.st.attrs.items():
                    if hasattr(v, 'op'):
                        subterms(v, mention)
        init = I.method(cls, '__init__')
        initnames = set()
        if init is not None and init.op == 'fn':
            initnames = set(x.id for x in ast.walk(I.fns[init.a[0]].node) if isinstance(x, ast.Name))
        opaque = any(x.op == 'attr' and x.a[0] is s and x.a[1] == '__dict__' for x in mention)
        for t in I.dterms(cls) + I.terms(cls):
            w = T('attr', s, t)
            if w in mention or t in initnames or any(x.op == 'attr' and x.a[0] is s and x.a[1] == t for x in mention):
                rep.ok('input-used', '%s.%s' % (ctx.short(cls), t))
            elif miss or opaque or any(x.op == 'attr' and x.a[0].op == 'attr' and x.a[0].a[0] is s for x in mention):
                rep.und('input-used', '%s.%s' % (ctx.short(cls), t), None, 'compute_r not summarised')
            else:
                rep.bad('input-ignored', '%s.%s' % (ctx.short(cls), t), ctx.fnloc(ctx.method(cls, 'compute_r')),
                        'the declared input reaches neither the value nor a branch of compute_r/on_changed')


def dispatch(ctx, rep):
    """minimize: on every path that does not raise every argument is examined."""
    I = ctx.I
    m = I.mods.get(I.pkg + '.optimization')
    f = m.env.get('minimize') if m else None
    if f is None or f.op != 'fn':
        rep.und('option-examined', 'minimize')
        return
    i = I.fns[f.a[0]]
    args, kw, syms = sym_args(ctx, i, None)
    loc = ctx.fnloc(f)
    for meth in ('dogleg', 'bfgs'):
        a2 = [C(meth) if x is syms.get('method') else x for x in args]
        fx = {T('is', *sorted([NONE, syms['options']])): True} if 'options' in syms else {}
        # the internal minimiser is one opaque step here
        g = I.mods[I.pkg + '.optimization'].env.get('minimize_dogleg')
        saved = dict(I.mods[I.pkg + '.optimization'].env)
        I.mods[I.pkg + '.optimization'].env['minimize_dogleg'] = T('ext', 'opaque.minimize_dogleg')
        try:
            ps = ctx.run(f, a2, kwargs=kw, facts={T('isch', syms['fun']): True} if 'fun' in syms else {})
        finally:
            I.mods[I.pkg + '.optimization'].env.clear()
            I.mods[I.pkg + '.optimization'].env.update(saved)
        if not ps:
            rep.und('option-examined', 'minimize(method=%r)' % meth, loc)
            continue
        for pn, s in syms.items():
            if pn == 'method':
                continue
            missing = False
            for p in ps:
                if p.outcome == 'raise':
                    continue
                mention = set(subterms(p.value)) if p.value is not None else set()
                for e in p.eff:
                    collect(e, mention)
                if s not in mention and not closure_mentions(ctx, mention, pn):
                    missing = True
            if missing:
                rep.bad('option-dropped', 'minimize(method=%r, %s)' % (meth, pn), loc, 'accepted and never examined with this method')
            else:
                rep.ok('option-examined', 'minimize(method=%r, %s)' % (meth, pn), loc)


def closure_mentions(ctx, mention, name):
    for x in mention:
        if x.op == 'fn':
            n = ctx.I.fns[x.a[0]].node
            if any(isinstance(k, ast.Name) and k.id == name for k in ast.walk(n)):
                return True
    return False


def always_true_asserts(ctx, rep):
    for mod, m in sorted(ctx.I.mods.items()):
        base = mod.split('.')[-1]
        if base.startswith('test_') or base.startswith('optional'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assert) and isinstance(n.test, ast.Tuple) and n.test.elts:
                rep.bad('vacuous-assert', '%s' % mod, (modfile(ctx, mod), n.lineno, mod), 'assert on a non-empty tuple never fires')
            elif isinstance(n, ast.Raise) and isinstance(n.exc, ast.Constant):
                rep.bad('raise-non-exception', mod, (modfile(ctx, mod), n.lineno, mod), 'raises a constant')


def check(ctx, rep):
    scopes(ctx, rep)
    attributes(ctx, rep)
    self_attributes(ctx, rep)
    walks(ctx, rep)
    inputs_used(ctx, rep)
    dispatch(ctx, rep)
    always_true_asserts(ctx, rep)
    rep.assume += ['external modules have the public names of the installed versions (sa/extnames.py)',
                   'functions of test modules and of the visualisation/debug tools are outside the claim',
                   'the text inside LinearOperator callbacks and generator bodies is covered by the scope rule only']
