"""Path-sensitive abstract interpreter over the syntax tree.

Nothing of the analysed repository is imported or executed.  Every function is walked abstractly:
values are hash-consed terms, branches on unknown conditions enumerate both outcomes (each becoming a
recorded fact), loops over unknown collections are summarised by the set of paths of a generic
iteration, repository helpers are inlined, everything else stays an uninterpreted term plus an effect.
"""
import ast
import os
from . import nplib
from .terms import T, C, NONE, TRUE, FALSE, Term, is_c, cv, tup, subterms, show

DELETED = T('deleted')
UNSET = T('unset')


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class NoFork(Exception):
    pass


class Infeasible(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Rai(Exception):
    def __init__(self, v, loc=None):
        self.v = v
        self.loc = loc


class Eff(object):
    __slots__ = ('kind', 'a', 'loc', 'ep')

    def __init__(self, kind, a, loc, ep=0):
        self.kind = kind
        self.a = a
        self.loc = loc
        self.ep = ep

    def __repr__(self):
        return '%s%s@%s:%s' % (self.kind, show(tuple(x if not isinstance(x, LoopInfo) else 'L' for x in self.a)), self.loc[0], self.loc[1])


class Fn(object):
    def __init__(self, node, mod, qual, frame, defaults, kwdefaults, owner):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


class Cls(object):
    def __init__(self, name, mod, node, bases, env):
        self.name = name          # qualified name
        self.mod = mod
        self.node = node
        self.bases = bases        # terms
        self.env = env


class Module(object):
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.env = {}
        self.state = 'new'


class LoopInfo(object):
    def __init__(self, idx, kind, loc, it):
        self.idx = idx
        self.kind = kind
        self.loc = loc
        self.iter = it
        self.elem = None
        self.cond = None
        self.paths = []
        self.entry = None         # havoced entry state
        self.appends = {}


class Path(object):
    """Outcome of one abstract path."""
    def __init__(self, outcome, value, st, nfx, loc=None):
        self.outcome = outcome    # 'next' 'return' 'raise' 'break' 'continue'
        self.value = value
        self.st = st
        self.eff = st.eff[nfx:]
        self.loc = loc

    @property
    def facts(self):
        return [(e.a[0], e.a[1]) for e in self.eff if e.kind == 'fact']


class State(object):
    __slots__ = ('frames', 'heap', 'attrs', 'items', 'ver', 'facts', 'eff', 'gov', 'n', 'epoch')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.attrs = {}
        self.items = {}
        self.ver = {}
        self.facts = {}
        self.eff = []
        self.gov = {}
        self.n = 0
        self.epoch = 0

    def clone(self):
        s = State()
        s.frames = {k: (dict(e), p, m, g) for k, (e, p, m, g) in self.frames.items()}
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.items = dict(self.items)
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.eff = list(self.eff)
        s.gov = dict(self.gov)
        s.n = self.n
        s.epoch = self.epoch
        return s


def walk_own(node):
    """Walk a function body without entering nested functions/classes."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


BUILTINS = set('''len range list tuple set dict frozenset isinstance issubclass hasattr getattr setattr delattr type id super
property classmethod staticmethod callable min max abs sum float int str bool repr print sorted enumerate zip reversed any all
map filter iter next object Exception ValueError TypeError KeyError AttributeError NotImplementedError IndexError RuntimeError
AssertionError StopIteration ImportError NameError ZeroDivisionError RuntimeWarning UserWarning Warning DeprecationWarning
ArithmeticError OverflowError FloatingPointError LookupError NotImplemented Ellipsis
open exec eval globals locals vars hash complex round divmod pow slice bytes dir input ord chr format bytearray memoryview
BaseException OSError IOError SystemExit KeyboardInterrupt UnicodeError GeneratorExit EOFError MemoryError __import__ issubclass bin hex oct ascii'''.split())

PURE_EXT_PREFIX = ('numpy', 'scipy', 'builtins', 'inspect', 'os', 'time', 'collections', 'weakref', 'functools', 'copy',
                   'warnings', 'six', 'numbers', 'math', 'itertools', 'operator')


class Interp(object):
    MAXDEPTH = 40
    MAXPATHS = 6000
    MAXSTEPS = 3000000

    def __init__(self, repo, pkg='chumpy', probe=None):
        self.repo = repo
        self.nofork = False
        self.stubs = {}           # function name -> summary used instead of its body
        self.ext_hooks = {}       # external function name -> called with (I, args, kwargs) when it is reached
        self.on_setattr = None
        self.weak = set()
        self.loop_hook = None
        self.waits = frozenset()
        self.explicit_only = False
        self.closed = {}          # instances whose attributes are all known
        self.pkg = pkg
        self.mods = {}
        self.classes = {}
        self.fns = []
        self.fnidx = {}
        self.loops = []
        self.parse_errors = []
        self.loading = True
        self.st = State()
        self.prefix = []
        self.choices = []
        self.pos = 0
        self.stack = []
        self.mod = None
        self.loc = ('?', 0)
        self.selfterm = None
        self.prim = set()        # method names never inlined, on any receiver
        self.inline_props = set()
        self.loopdepth = 0
        self.steps = 0
        self.notes = []
        self.used_fns = set()
        self.execd = []          # (module, source string) of exec'd text
        d = os.path.join(repo, pkg)
        self.files = []
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                name = pkg if f == '__init__.py' else pkg + '.' + f[:-3]
                src = open(p, 'rb').read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    self.parse_errors.append((p, str(e)))
                    continue
                self.files.append(p)
                self.mods[name] = Module(name, p, tree)
        if probe is not None:
            # client code to be analysed together with the library (never executed)
            self.mods[pkg + '._probe'] = Module(pkg + '._probe', os.path.join(d, '_probe.py'), ast.parse(probe))
        self.load(pkg)
        for m in list(self.mods):
            base = m.split('.')[-1]
            if base.startswith('test_') or base.startswith('optional_test') or base in ('np_tensordot', 'api_compatibility'):
                continue
            self.load(m)
        self.loading = False
        self.base = self.st
        self.base.eff = []
        self.base.facts = {}
        self.base.epoch = 0
        self.nload = len(self.fns)
        self.setup_classes()

    # ------------------------------------------------------------------ loading
    def load(self, name):
        m = self.mods.get(name)
        if m is None or m.state != 'new':
            return m
        m.state = 'loading'
        save = (self.mod, self.loc, self.stack)
        self.mod = name
        self.stack = [name]
        m.env['__name__'] = C(name)
        m.env['__file__'] = C(m.path)
        fid = self.newframe(m.env, None, name)
        self.cur = fid
        try:
            self.run_top(m.tree.body)
        finally:
            self.mod, self.loc, self.stack = save
            m.state = 'done'
        return m

    def run_top(self, body):
        cur = self.cur
        for s in body:
            self.cur = cur
            try:
                self.stmt(s)
            except (Rai, Infeasible) as e:
                self.notes.append('top-level statement at %s not evaluated: %r' % (self.loc, getattr(e, 'v', None)))
            except (Unsupported,) as e:
                self.notes.append('top-level statement at %s unsupported: %s' % (self.loc, e))
        self.cur = cur

    def setup_classes(self):
        """Declared inputs of every Ch class, following Ch.setup_terms' conventions."""
        self.ch = T('cls', self.pkg + '.ch.Ch')
        self.chclasses = []
        self.decl = {}
        if self.pkg + '.ch.Ch' not in self.classes:
            raise Unsupported('anchor vanished: class Ch')
        root_d = self.classes[self.pkg + '.ch.Ch'].env.get('dterms')
        root_t = self.classes[self.pkg + '.ch.Ch'].env.get('terms')
        for n, c in self.classes.items():
            t = T('cls', n)
            if not self.is_ch_class(t):
                continue
            if t is not self.ch:
                self.chclasses.append(t)
            d = self.names_of(self.class_lookup(t, 'dterms')[0])
            tt = self.names_of(self.class_lookup(t, 'terms')[0])
            if t is not self.ch:
                if self.class_lookup(t, 'dterms')[1] is self.ch:
                    d = ()
                if self.class_lookup(t, 'terms')[1] is self.ch:
                    tt = ()
            to = self.class_lookup(t, 'term_order')
            order = self.names_of(to[0]) if to else None
            if d is None or tt is None:
                self.decl[t] = None
                continue
            if order is None or (to[1] is not t and set(order) != set(d) | set(tt)):
                order = tuple(tt) + tuple(d)
            self.decl[t] = (tuple(d), tuple(tt), tuple(order))

    def names_of(self, v):
        if v is None:
            return None
        if is_c(v) and isinstance(cv(v), str):
            return (cv(v),)
        it = self.known_items(v)
        if it is None or not all(is_c(x) and isinstance(cv(x), str) for x in it):
            return None
        return tuple(cv(x) for x in it)

    def dterms(self, cls):
        d = self.decl.get(cls)
        return d[0] if d else ()

    def terms(self, cls):
        d = self.decl.get(cls)
        return d[1] if d else ()

    # ------------------------------------------------------------------ classes
    def mro(self, cls):
        memo = self.__dict__.setdefault('_mro', {})
        if not self.loading and cls in memo:
            return memo[cls]
        out = []

        def lin(c):
            # C3
            info = self.classes.get(c.a[0]) if c.op == 'cls' else None
            if info is None:
                return [c]
            seqs = [lin(b) for b in info.bases] + [list(info.bases)]
            res = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    h = s[0]
                    if not any(h in o[1:] for o in seqs):
                        break
                res.append(h)
                seqs = [[x for x in s2 if x is not h] if s2[0] is h else s2 for s2 in seqs]
        out = lin(cls)
        if not self.loading:
            memo[cls] = out
        return out

    def class_lookup(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            ov = self.st.attrs.get((c, name))
            if ov is not None and ov is not DELETED:
                return ov, c
            info = self.classes.get(c.a[0]) if c.op == 'cls' else None
            if info is not None and name in info.env:
                return info.env[name], c
        return None

    def is_ch_class(self, cls):
        return cls.op == 'cls' and any(c.op == 'cls' and c.a[0] == self.pkg + '.ch.Ch' for c in self.mro(cls))

    def is_subclass(self, c, d):
        return d in self.mro(c) if c.op == 'cls' else (c is d)

    # ------------------------------------------------------------------ frames
    def fresh(self):
        self.st.n += 1
        return self.st.n

    def newframe(self, env, parent, mod):
        fid = ('f', self.fresh())
        self.st.frames[fid] = (env, parent, mod, set())
        return fid

    def lookup(self, name):
        fid = self.cur
        while fid is not None:
            env, parent, mod, glob = self.st.frames[fid]
            if name in glob:
                break
            if name in env:
                return env[name]
            fid = parent
        v = self.st.gov.get((self.mod, name))
        if v is not None:
            return v
        m = self.mods.get(self.mod)
        if m and name in m.env:
            return m.env[name]
        if name in BUILTINS:
            return T('ext', 'builtins.' + name)
        if name in ('__name__',):
            return C(self.mod)
        return None

    def assign_name(self, name, v):
        env, parent, mod, glob = self.st.frames[self.cur]
        if name in glob:
            self.set_global(mod, name, v)
        else:
            env[name] = v

    def set_global(self, mod, name, v):
        if self.loading:
            self.mods[mod].env[name] = v
        else:
            self.eff('setglobal', C(mod), C(name), v)
            self.st.gov[(mod, name)] = v

    # ------------------------------------------------------------------ path exploration
    def choose(self, n):
        if n == 1:
            return 0
        if self.loading:
            return 0
        if self.nofork:
            raise NoFork()
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = 0
            self.prefix.append(0)
        if self.pos < len(self.choices):
            self.choices[self.pos] = n
        else:
            self.choices.append(n)
        self.pos += 1
        return k

    def explore(self, thunk, st0=None):
        """All paths of thunk() from state st0 -> list of Path."""
        save = (self.st, self.prefix, self.choices, self.pos, self.cur, self.mod, self.loc, self.stack, self.loopdepth)
        savelc = getattr(self, 'loopcache', None)
        self.loopcache = {}
        st0 = (st0 or self.st)
        out = []
        prefix = []
        try:
            while True:
                self.st = st0.clone()
                self.prefix = prefix
                self.choices = []
                self.pos = 0
                self.cur, self.mod, self.loc, self.stack, self.loopdepth = save[4], save[5], save[6], list(save[7]), save[8]
                n0 = len(self.st.eff)
                try:
                    try:
                        v = thunk()
                        p = Path('next', v, self.st, n0, self.loc)
                    except Ret as e:
                        p = Path('return', e.v, self.st, n0, self.loc)
                    except Brk:
                        p = Path('break', None, self.st, n0, self.loc)
                    except Cont:
                        p = Path('continue', None, self.st, n0, self.loc)
                    except Rai as e:
                        p = Path('raise', e.v, self.st, n0, e.loc or self.loc)
                    out.append(p)
                except Infeasible:
                    pass
                if len(out) > self.MAXPATHS:
                    raise Budget('too many paths')
                # next prefix
                prefix = self.prefix[:self.pos]
                ch = self.choices[:self.pos]
                while prefix and prefix[-1] + 1 >= ch[len(prefix) - 1]:
                    prefix.pop()
                if not prefix:
                    return out
                prefix[-1] += 1
        finally:
            (self.st, self.prefix, self.choices, self.pos, self.cur, self.mod, self.loc, self.stack, self.loopdepth) = save
            self.loopcache = savelc

    def eff(self, kind, *a):
        if not self.loading:
            self.st.eff.append(Eff(kind, a, self.loc + (self.stack[-1] if self.stack else '?',), self.st.epoch))

    # ------------------------------------------------------------------ facts
    def fact(self, atom, val):
        self.st.facts[atom] = val
        self.eff('fact', atom, val)

    def decide(self, atom):
        f = self.st.facts
        if atom in f:
            return f[atom]
        v = self.implied(atom)
        if v is not None:
            return v
        if self.loading:
            return False
        k = self.choose(2)
        val = (k == 0)
        self.fact(atom, val)
        return val

    def implied(self, atom):
        f = self.st.facts
        if atom.op == 'is':
            a, b = atom.a
            parent = {}

            def find(x):
                while parent.get(x, x) is not x:
                    x = parent[x]
                return x
            for k, v in f.items():
                if k.op == 'is' and v:
                    x, y = find(k.a[0]), find(k.a[1])
                    if x is not y:
                        parent[x] = y
            ra, rb = find(a), find(b)
            if ra is rb:
                return True
            for k, v in f.items():
                if k.op == 'is' and not v:
                    x, y = find(k.a[0]), find(k.a[1])
                    if (x is ra and y is rb) or (x is rb and y is ra):
                        return False
            # is None decided through the class of ra
            for t in (a, b):
                pass
        elif atom.op in ('lt', 'le', 'eq'):
            a, b = atom.a
            if atom.op == 'lt':
                if f.get(T('lt', b, a)) or f.get(T('le', b, a)) or f.get(mkeq(a, b)):
                    return False
            elif atom.op == 'le':
                if f.get(T('lt', a, b)) or f.get(mkeq(a, b)):
                    return True
                if f.get(T('lt', b, a)):
                    return False
            elif atom.op == 'eq':
                if f.get(T('lt', a, b)) or f.get(T('lt', b, a)):
                    return False
        elif atom.op == 'truth':
            x = atom.a[0]
            if f.get(mkis(x, NONE)):
                return False
        return None

    def truth(self, t):
        op = t.op
        if op == 'c':
            return bool(cv(t))
        if op == 'not':
            return not self.truth(t.a[0])
        if op == 'cmp':
            return self.cmp_truth(t.a[0], t.a[1], t.a[2])
        if op == 'atom':
            return self.decide(t.a[0])
        if op in ('tup', 'list', 'set'):
            if any(x.op == 'star' for x in t.a) and all(x.op == 'star' for x in t.a):
                return self.decide(T('truth', t))
            return len(t.a) > 0
        if op == 'ref':
            h = self.st.heap[t.a[0]]
            if h[0] in ('list', 'set', 'dict') and not any(x.op == 'star' for x in h[1] if isinstance(x, Term)) and not (h[0] == 'dict' and h[2]):
                return len(h[1]) > 0
            if h[0] in ('list', 'set', 'dict'):
                if any(isinstance(x, tuple) or (isinstance(x, Term) and x.op != 'star') for x in h[1]):
                    return True
                return self.decide(T('truth', self.freeze(t)))
            return True
        if op in ('fn', 'bm', 'cls', 'mod', 'ext'):
            return True
        if op == 'and':
            return all(self.truth(x) for x in t.a)
        if op == 'or':
            return any(self.truth(x) for x in t.a)
        if op == 'np' and t.a[0] in ('logical_not',):
            return not self.truth(t.a[1][0][1])
        if self.is_node(t) and op != 'atom':
            pass
        return self.decide(T('truth', t))

    def cmp_truth(self, op, a, b):
        if op in ('Is', 'IsNot'):
            v = self.is_truth(a, b)
            return v if op == 'Is' else not v
        if op in ('In', 'NotIn'):
            v = self.in_truth(a, b)
            return v if op == 'In' else not v
        if is_c(a) and is_c(b):
            x, y = cv(a), cv(b)
            try:
                return {'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y, 'LtE': lambda: x <= y,
                        'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]()
            except TypeError:
                raise Rai(T('exc', 'TypeError'), self.loc)
        if op in ('Eq', 'NotEq'):
            v = self.eq_truth(a, b)
            return v if op == 'Eq' else not v
        if op in ('Gt', 'GtE'):
            a, b = b, a
            op = {'Gt': 'Lt', 'GtE': 'LtE'}[op]
        # emptiness tests
        if a.op == 'c' and cv(a) == 0 and op == 'Lt' and b.op == 'len':        # 0 < len x
            return self.truth(b.a[0])
        if a.op == 'c' and cv(a) == 1 and op == 'LtE' and b.op == 'len':
            return self.truth(b.a[0])
        if b.op == 'c' and cv(b) == 1 and op == 'Lt' and a.op == 'len':
            return not self.truth(a.a[0])
        if b.op == 'c' and cv(b) == 0 and op == 'LtE' and a.op == 'len':
            return not self.truth(a.a[0])
        return self.decide(T('lt' if op == 'Lt' else 'le', a, b))

    def eq_truth(self, a, b):
        if a is b and a.op not in ('sym', 'val', 'np', 'bin', 'item', 'attr'):
            return True
        for x, y in ((a, b), (b, a)):
            if x.op == 'c' and cv(x) == 0 and not isinstance(cv(x), bool) and y.op == 'len':
                return not self.truth(y.a[0])
            if x.op == 'c' and cv(x) is None:
                # "== None": identity for everything but arrays, where it is elementwise
                v = self.is_none(y)
                if v is not None:
                    return v
                return self.decide(mkis(y, NONE))
            if x is TRUE and y.op in ('cmp', 'not', 'atom'):
                return self.truth(y)
            if x is FALSE and y.op in ('cmp', 'not', 'atom'):
                return not self.truth(y)
        B = ('cmp', 'not')
        if a.op in B and b.op in B and all(x.a[0] in ('Is', 'IsNot', 'In', 'NotIn') if x.op == 'cmp' else True for x in (a, b)):
            return self.truth(a) == self.truth(b)
        if a.op == 'id' and b.op == 'id':
            return self.is_truth(a.a[0], b.a[0])
        if a.op == 'cls' and b.op == 'cls':
            return a is b
        if a.op == 'ext' and b.op == 'ext':
            return a is b
        if self.is_node(a) and self.is_node(b):
            return self.is_truth(a, b)
        if a.op == 'tup' and b.op == 'tup' and len(a.a) != len(b.a):
            return False
        if a.op in ('cls', 'ext', 'fn') and is_c(b) or b.op in ('cls', 'ext', 'fn') and is_c(a):
            return False
        if a.op == 'ref' and b.op == 'ref' and self.st.heap[a.a[0]][0] == self.st.heap[b.a[0]][0] and self.st.heap[a.a[0]][0] in ('set', 'list'):
            ka, kb = self.known_items(a), self.known_items(b)
            if ka is not None and kb is not None and all(is_c(x) for x in ka + kb):
                va, vb = [cv(x) for x in ka], [cv(x) for x in kb]
                return set(va) == set(vb) if self.st.heap[a.a[0]][0] == 'set' else va == vb
        return self.decide(mkeq(self.freeze(a), self.freeze(b)))

    NOTNONE = set(['val', 'bin', 'un', 'np', 'sp', 'tup', 'list', 'set', 'new', 'inst', 'fn', 'bm', 'cls', 'ext', 'mod', 'ref', 'shape',
                   'size', 'len', 'cmp', 'map', 'dict', 'upd', 'exc', 'not', 'slice', 'linop'])

    def is_none(self, t):
        if t is NONE:
            return True
        if t.op == 'c' or t.op in self.NOTNONE:
            return False
        if self.is_node(t):
            return False
        if t.op == 'vcall' and t.a[1] in ('is_dr_wrt',):
            return False
        if t.op == 'spm' and t.a[1] in ('dot', 'matmat', 'todense', 'toarray', 'tocsc', 'tocsr', 'tocoo'):
            return False
        return None

    def is_truth(self, a, b):
        if a is b:
            return True
        if a is NONE or b is NONE:
            o = b if a is NONE else a
            v = self.is_none(o)
            if v is not None:
                return v
        elif is_c(a) and is_c(b):
            if type(cv(a)) is type(cv(b)) and isinstance(cv(a), (str, int, bool)):
                return cv(a) == cv(b)
            return False
        elif a.op in ('cls', 'ext', 'fn') and b.op in ('cls', 'ext', 'fn'):
            return False
        elif a.op == 'ref' and b.op in ('ref', 'tup', 'c', 'cls', 'fn') or b.op == 'ref' and a.op in ('tup', 'c', 'cls', 'fn'):
            return False
        elif a.op == 'new' and b.op in ('new', 'attr', 'inst') and a is not b:
            return False
        elif b.op == 'new' and a.op in ('attr', 'inst'):
            return False
        elif self.is_node(a) and b.op in ('np', 'val', 'bin', 'c', 'sp', 'tup'):
            return False
        elif self.is_node(b) and a.op in ('np', 'val', 'bin', 'c', 'sp', 'tup'):
            return False
        return self.decide(mkis(a, b))

    def in_truth(self, a, b):
        if is_c(a) and is_c(b) and isinstance(cv(a), str) and isinstance(cv(b), str):
            return cv(a) in cv(b)
        items = self.known_items(b, forin=True)
        if items is not None:
            if is_c(a) and all(is_c(x) for x in items):
                return any(cv(x) == cv(a) for x in items)
            for x in items:
                if x is a:
                    return True
            for x in items:
                if self.eq_truth(a, x):
                    return True
            return False
        if b.op == 'ref' and self.st.heap[b.a[0]][0] == 'dict':
            h = self.st.heap[b.a[0]]
            for k, v in h[1]:
                if k is a:
                    return True
            if not h[2] and is_c(a) and all(is_c(k) for k, v in h[1]):
                return any(cv(k) == cv(a) for k, v in h[1])
            if not h[2]:
                for k, v in h[1]:
                    if self.eq_truth(a, k):
                        return True
                return False
        fb = self.freeze(b)
        if (fb, a) in self.st.items and self.st.items[(fb, a)] is not DELETED:
            return True
        fb2 = self.versioned(fb)
        return self.decide(T('in', self.freeze(a), fb2))

    def versioned(self, t):
        v = self.st.ver.get(t, 0)
        return T('at', t, v) if v else t

    # ------------------------------------------------------------------ kinds
    def cls_of(self, t):
        if t.op == 'inst':
            return t.a[0]
        if t.op == 'new':
            return t.a[0]
        if t.op == 'ref':
            h = self.st.heap.get(t.a[0])
            if h and h[0] == 'obj':
                return h[1]
        return None

    def is_node(self, t):
        if t.op == 'inst':
            return True
        if t.op == 'new':
            return self.is_ch_class(t.a[0])
        if t.op == 'attr' and isinstance(t.a[1], str):
            o = t.a[0]
            c = self.cls_of(o)
            if c is not None and c.op == 'cls' and t.a[1] in self.dterms(c) and not (c is self.ch):
                return True
        if t.op == 'elem' and self.parents_map(t.a[0]):
            return True
        if t.op == 'popped' and t.a[0].op == 'list' and t.a[0].a and all(x.op == 'star' and x.a[0] >= 0 or self.is_node(x) for x in t.a[0].a):
            stars = [x for x in t.a[0].a if x.op == 'star']
            if all(x.a[1] in getattr(self.loops[x.a[0]], 'nodelists', ()) for x in stars):
                return True
        return self.st.facts.get(T('isch', t), False)

    def parents_map(self, t):
        while t.op in ('listof', 'dictkeys', 'at', 'sorted') or t.op == 'mcall' and t.a[1] in ('keys', 'copy'):
            t = t.a[0]
        return t.op == 'attr' and t.a[1] == '_parents'

    def known_items(self, t, forin=False):
        """Items of a collection whose extent is known, else None."""
        if t.op in ('tup', 'list', 'set'):
            if any(x.op == 'star' for x in t.a):
                return None
            return list(t.a)
        if t.op == 'ref':
            h = self.st.heap.get(t.a[0])
            if h is None:
                return None
            if h[0] in ('list', 'set'):
                if any(x.op == 'star' for x in h[1]):
                    return None
                return list(h[1])
            if h[0] == 'dict' and not h[2]:
                return [k for k, v in h[1]]
            return None
        if t.op == 'c' and isinstance(cv(t), str) and not forin:
            return [C(x) for x in cv(t)]
        if t.op == 'c' and isinstance(cv(t), (tuple, frozenset)):
            return [C(x) for x in cv(t)]
        if t.op == 'dictitems':
            h = self.known_dict(t.a[0])
            return None if h is None else [tup([k, v]) for k, v in h]
        if t.op == 'dict':
            h = self.known_dict(t)
            return None if h is None else [k for k, v in h]
        if t.op == 'range' and self.closed and all(is_c(x) and isinstance(cv(x), int) for x in t.a):
            r = range(*[cv(x) for x in t.a])
            return [C(x) for x in r] if len(r) <= 8 else None
        return None

    def known_dict(self, t):
        if t.op == 'ref':
            h = self.st.heap.get(t.a[0])
            if h and h[0] == 'dict' and not h[2]:
                return list(h[1])
        if t.op == 'dict':
            return list(t.a)
        return None

    def unpicklable(self, v, depth=4):
        """Why the value cannot be pickled, if it is known not to be."""
        if v.op == 'ref':
            if v.a[0] in self.weak:
                return 'weak references'
            h = self.st.heap.get(v.a[0])
            if h is None or depth == 0 or h[0] not in ('dict', 'list', 'set'):
                return None
            for x in h[1]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    w = self.unpicklable(y, depth - 1) if isinstance(y, Term) else None
                    if w:
                        return w
            return None
        if v.op == 'fn':
            i = self.fns[v.a[0]]
            if i.frame is not None or i.name == '<lambda>':
                return 'a function without a name of its own'
        if v.op in ('mod', 'file', 'gen'):
            return {'mod': 'a module', 'file': 'an open file', 'gen': 'a generator'}[v.op]
        if v.op == 'linop':
            return 'a linear operator made of functions'
        if v.op == 'item' and v.a[0].op in ('map', 'listof', 'copyof') and depth:
            return self.unpicklable(v.a[0], depth - 1)
        if v.op in ('listof', 'copyof', 'dictof', 'setof') and depth:
            return self.unpicklable(v.a[0], depth - 1)
        if v.op == 'map' and depth:
            return self.unpicklable(v.a[2], depth - 1)
        if v.op in ('tup', 'list', 'set') and depth:
            for x in v.a:
                w = self.unpicklable(x, depth - 1) if isinstance(x, Term) else None
                if w:
                    return w
        return None

    def freeze(self, t):
        """Snapshot of a value for embedding in terms (heap containers become literal terms)."""
        if t.op == 'ref':
            h = self.st.heap.get(t.a[0])
            if h is None:
                return t
            if h[0] in ('list', 'set'):
                its = [self.freeze(x) for x in h[1]]
                if h[0] == 'list' and len(its) == 1 and its[0].op == 'star':
                    m = self.star_map(its[0])
                    if m is not None:
                        return m
                return T(h[0], *its)
            if h[0] == 'dict':
                d = tuple((self.freeze(k), self.freeze(v)) for k, v in h[1])
                return T('dict', *d) if not h[2] else T('opendict', t.a[0], d)
            return t
        if t.op in ('tup', 'list', 'set'):
            return T(t.op, *[self.freeze(x) for x in t.a])
        return t

    def star_map(self, star):
        """A loop that appends exactly one element per iteration is a map."""
        if star.a[0] < 0:
            return None
        L = self.loops[star.a[0]]
        addr = star.a[1]
        if L.kind != 'for' or L.iter is None:
            return None
        vals = set()
        for p in L.paths:
            if p.outcome in ('raise',):
                continue
            if p.outcome not in ('next', 'continue'):
                return None
            ap = L.appends.get((id(p), addr))
            if ap is None or len(ap) != 1:
                return None
            vals.add(ap[0])
        if len(vals) == 1:
            return T('map', L.iter, L.elem, vals.pop(), TRUE)
        return None

    def alloc(self, kind, *content):
        addr = self.fresh()
        self.weak.discard(addr)
        self.st.heap[addr] = (kind,) + content
        return T('ref', addr)

    def mklist(self, items):
        return self.alloc('list', tuple(items))

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget('too many steps')

    def stmt(self, s):
        self.tick()
        self.loc = (self.relpath(), getattr(s, 'lineno', 0))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        return m(s)

    def relpath(self):
        m = self.mods.get(self.mod)
        return os.path.relpath(m.path, self.repo) if m else '?'

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            nm = a.name
            if nm in self.mods:
                self.load(nm)
                v = T('mod', nm)
            else:
                v = T('ext', nm if a.asname else nm.split('.')[0])
            self.assign_name(a.asname or nm.split('.')[0], v)

    def s_ImportFrom(self, s):
        if s.level:
            parts = self.mod.split('.')
            if self.mods[self.mod].path.endswith('__init__.py'):
                parts = parts + ['__init__']
            base = '.'.join(parts[:len(parts) - s.level])
            full = base + ('.' + s.module if s.module else '')
        else:
            full = s.module
        if full in self.mods:
            save = (self.cur, self.mod)
            self.load(full)
            self.cur, self.mod = save
            m = self.mods[full]
            for a in s.names:
                if a.name == '*':
                    al = m.env.get('__all__')
                    names = self.names_of(al) if al is not None else None
                    if names is None:
                        names = [n for n in m.env if not n.startswith('_')]
                        if al is not None:
                            self.notes.append('__all__ of %s not resolved' % full)
                    for n in names:
                        if n in m.env:
                            self.assign_name(n, m.env[n])
                elif a.name in m.env:
                    self.assign_name(a.asname or a.name, m.env[a.name])
                elif full + '.' + a.name in self.mods:
                    save = (self.cur, self.mod)
                    self.load(full + '.' + a.name)
                    self.cur, self.mod = save
                    self.assign_name(a.asname or a.name, T('mod', full + '.' + a.name))
                else:
                    self.assign_name(a.asname or a.name, T('unresolved', full, a.name))
        else:
            for a in s.names:
                if a.name == '*':
                    continue
                self.assign_name(a.asname or a.name, T('ext', full + '.' + a.name))

    def s_Global(self, s):
        env, p, m, g = self.st.frames[self.cur]
        g2 = set(g)
        g2.update(s.names)
        self.st.frames[self.cur] = (env, p, m, g2)

    def s_Nonlocal(self, s):
        raise Unsupported('nonlocal')

    def s_FunctionDef(self, s):
        f = self.mkfn(s)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            f = self.call(dv, [f], {})
        self.assign_name(s.name, f)

    def mkfn(self, node, owner=None):
        a = node.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        kwd = tuple((k.arg, self.ev(d) if d is not None else None) for k, d in zip(a.kwonlyargs, a.kw_defaults))
        qual = (self.stack[-1] if self.stack else self.mod) + '.' + getattr(node, 'name', '<lambda>')
        key = (id(node), self.cur, defaults, kwd)
        i = self.fnidx.get(key)
        if i is None:
            i = len(self.fns)
            own = getattr(self, 'clsctx', None)
            # at module level functions need no closure frame
            fid = self.cur
            if self.st.frames[fid][1] is None and self.st.frames[fid][0] is self.mods[self.mod].env:
                fid = None
            if own is not None and own[1] == self.cur:
                fid = own[2]
                qual = own[0] + '.' + getattr(node, 'name', '<lambda>')
            self.fns.append(Fn(node, self.mod, qual, fid, defaults, kwd, own[0] if own and own[1] == self.cur else None))
            self.fnidx[key] = i
        return T('fn', i)

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        pre = self.mod
        if self.stack and self.stack[-1] != self.mod:
            pre = self.stack[-1]
        ctx = getattr(self, 'clsctx', None)
        if ctx is not None and ctx[1] == self.cur:
            pre = ctx[0]
        qual = pre + '.' + s.name
        env = {}
        outer = self.cur
        oenv = self.st.frames[outer]
        closure = None if (oenv[1] is None and oenv[0] is self.mods[self.mod].env) else outer
        fid = self.newframe(env, outer, self.mod)
        self.cur = fid
        self.clsctx = (qual, fid, closure)
        self.stack.append(qual)
        cterm = T('cls', qual)
        self.classes[qual] = Cls(qual, self.mod, s, bases, env)
        try:
            for st in s.body:
                self.stmt(st)
                self.cur = fid
        finally:
            self.cur = outer
            self.clsctx = ctx
            self.stack.pop()
        # nested classes are executed with cur = fid; drop the dict aliasing
        self.classes[qual].env = dict(self.st.frames[fid][0])
        v = cterm
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        raise Ret(v)

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cont()

    def s_Raise(self, s):
        loc = self.loc
        if s.exc is None:
            raise Rai(T('exc', 'reraise'), loc)
        v = self.ev(s.exc)
        if v.op == 'ext':
            v = T('exc', v.a[0].split('.')[-1])
        elif v.op == 'cls':
            v = T('exc', v.a[0])
        raise Rai(v, loc)

    def s_Assert(self, s):
        if self.truth(self.ev(s.test)):
            return
        raise Rai(T('exc', 'AssertionError'), self.loc)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[self.cur][0].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.eff('delattr', o, t.attr)
                if o.op == 'ref':
                    h = self.st.heap[o.a[0]]
                    self.st.heap[o.a[0]] = (h[0], h[1], tuple(x for x in h[2] if x[0] != t.attr))
                self.st.attrs[(o, t.attr)] = DELETED
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                self.delitem(o, k)
            else:
                raise Unsupported('del')

    def delitem(self, o, k):
        if o.op == 'ref':
            h = self.st.heap[o.a[0]]
            if h[0] == 'dict':
                self.st.heap[o.a[0]] = ('dict', tuple((a, b) for a, b in h[1] if a is not k), h[2])
                return
            if h[0] == 'list' and is_c(k) and isinstance(cv(k), int) and self.known_items(o) is not None and -len(h[1]) <= cv(k) < len(h[1]):
                l = list(h[1])
                del l[cv(k)]
                self.st.heap[o.a[0]] = ('list', tuple(l))
                return
            if h[0] == 'list':
                self.st.heap[o.a[0]] = ('list', (T('star', -1, self.fresh()),))
                return
        fo = self.freeze(o)
        self.eff('delitem', fo, k)
        self.st.items[(fo, k)] = DELETED
        self.st.ver[fo] = self.st.ver.get(fo, 0) + 1

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            items = self.known_items(v)
            if items is not None:
                if len(items) != n:
                    raise Rai(T('exc', 'ValueError'), self.loc)
            else:
                items = [self.getitem(v, C(i)) for i in range(n)]
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            self.setitem(o, k, v)
        else:
            raise Unsupported('target ' + type(t).__name__)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id)
            if old is None:
                raise Rai(T('exc', 'NameError', s.target.id), self.loc)
            v = self.ev(s.value)
            r = self.aug(old, op, v)
            self.assign_name(s.target.id, r)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            old = self.getattr_(o, s.target.attr)
            v = self.ev(s.value)
            self.setattr_(o, s.target.attr, self.aug(old, op, v))
        else:
            o = self.ev(s.target.value)
            k = self.ev(s.target.slice)
            old = self.getitem(o, k)
            v = self.ev(s.value)
            self.setitem(o, k, self.aug(old, op, v))

    def aug(self, old, op, v):
        if old.op == 'ref':
            h = self.st.heap[old.a[0]]
            if h[0] == 'list' and op == 'Add':
                self.list_extend(old, v)
                return old
        if self.arraylike(old):
            self.amut(old, 'inplace ' + op)
            nv = self.binop(op, old, v)
            self.rewrite_views(self.viewroot(old), None, old, nv)
            return nv
        if old.op in ('attr', 'item', 'sym', 'phi', 'vcall', 'mcall', 'sp', 'spm'):
            # may be a mutable object: note it
            self.eff('aug', old, op, v)
        return self.binop(op, old, v)

    def list_extend(self, lst, v):
        items = self.known_items(v)
        h = self.st.heap[lst.a[0]]
        if items is None:
            items = [T('star', -2, self.freeze(v))]
        self.st.heap[lst.a[0]] = ('list', h[1] + tuple(items))

    def only_output(self, body):
        for x in body:
            if isinstance(x, ast.Pass):
                continue
            if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ('print', 'pif')):
                return False
        return True

    def s_If(self, s):
        if not s.orelse and not self.loading and self.only_output(s.body):
            self.ev(s.test)                  # prints or not: nothing else depends on it
            return
        if self.truth(self.ev(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        def always_raises(body):
            if not body:
                return False
            l = body[-1]
            if isinstance(l, ast.Raise):
                return True
            if isinstance(l, ast.If):
                return any(always_raises(b) for b in (l.body, l.orelse))
            return False
        implicit = [h for h in s.handlers if not always_raises(h.body)]
        waits = set()
        for h in s.handlers:
            for x in ([h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else h.type.elts if h.type is not None else ()):
                if isinstance(x, ast.Name) and x.id in ('KeyError', 'AttributeError', 'LookupError'):
                    waits.add('KeyError' if x.id == 'LookupError' else x.id)
        # a lookup that may fail: decided by whether the key or attribute is there, no further path
        if waits and len(s.body) == 1 and isinstance(s.body[0], (ast.Return, ast.Assign, ast.Expr)) and len(s.handlers) == 1 \
                and not isinstance(s.handlers[0].type, ast.Tuple) and s.body[0].value is not None \
                and all(isinstance(x.func, ast.Attribute) and x.func.attr in ('add', 'append', 'update', 'union', 'copy', 'discard')
                        for x in ast.walk(s.body[0].value) if isinstance(x, ast.Call)):
            implicit = []
        k = 0
        if implicit and not self.loading and not self.explicit_only:
            k = self.choose(1 + len(implicit))
        try:
            if k == 0:
                save = self.waits
                self.waits = save | waits
                try:
                    try:
                        self.block(s.body)
                    finally:
                        self.waits = save
                except Rai as e:
                    h = self.match_handler(s.handlers, e)
                    if h is None:
                        raise
                    self.eff('fact', T('exception', self.loc[0], C(self.loc[1])), True)
                    self.run_handler(h, e.v)
                else:
                    self.block(s.orelse)
            else:
                h = implicit[k - 1]
                self.eff('fact', T('exception', self.loc[0], C(self.loc[1])), True)
                for n in s.body:
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            env = self.st.frames[self.cur][0]
                            if x.id in env:
                                env[x.id] = T('maybe', env[x.id], self.loc[1])
                self.run_handler(h, T('exc', 'unknown'))
        finally:
            pass
        self.block(s.finalbody)

    s_TryStar = s_Try

    def match_handler(self, hs, e):
        nm = e.v.a[0] if e.v.op == 'exc' else None
        for h in hs:
            if h.type is None:
                return h
            t = self.ev(h.type)
            ts = self.known_items(t) or [t]
            for x in ts:
                n = x.a[0].split('.')[-1] if x.op in ('ext', 'cls') else None
                if n in ('Exception', 'BaseException') or (nm and n == str(nm).split('.')[-1]) \
                        or (n == 'LookupError' and nm in ('KeyError', 'IndexError')):
                    return h
        return None

    def run_handler(self, h, v):
        if h.name:
            self.assign_name(h.name, v)
        self.block(h.body)

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.ev(s.iter)
        items = self.known_items(it)
        if items is not None and len(items) <= 80:
            broke = False
            h0 = self.st.heap.get(it.a[0]) if it.op == 'ref' else None
            for x in items:
                if h0 is not None and self.st.heap.get(it.a[0]) != h0:
                    raise Unsupported('collection changes while it is iterated')
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except Brk:
                    broke = True
                    break
                except Cont:
                    pass
            if not broke:
                self.block(s.orelse)
            return
        self.generic_loop('for', s, it)

    def s_While(self, s):
        # a condition decided by known data at entry skips the loop; over closed instances its
        # iterations are unrolled (bounded)
        if not self.closed:
            if self.decided(s.test) is False:
                self.block(s.orelse)
                return
            self.generic_loop('while', s, None)
            return
        for _ in range(8):
            if not self.truth(self.ev(s.test)):
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except Brk:
                return
            except Cont:
                pass
        raise Unsupported('loop not finished')

    def decided(self, test):
        """The truth of a condition where known data decides it, else None (state untouched)."""
        if self.loading:
            return None
        save, cur, loc, nf = self.st, self.cur, self.loc, self.nofork
        self.st = save.clone()
        self.nofork = True
        try:
            return bool(self.truth(self.ev(test)))
        except (NoFork, Rai, Infeasible, Unsupported):
            return None
        finally:
            self.st, self.cur, self.loc, self.nofork = save, cur, loc, nf

    def elem_of(self, it):
        d = self.loopdepth
        if it.op == 'enumerate':
            return tup([T('idx', it.a[0], d), self.elem_of(it.a[0])])
        if it.op == 'zip':
            return tup([self.elem_of(x) for x in it.a])
        if it.op == 'dictitems':
            k = T('elem', it.a[0], d)
            return tup([k, self.getitem(it.a[0], k)])
        if it.op == 'listof':
            return self.elem_of(it.a[0])
        if it.op == 'map':
            return it.a[2] if it.a[3] is TRUE else T('elem', it, d)
        return T('elem', it, d)

    def assigned_names(self, s):
        out = set()
        for n in s.body + getattr(s, 'orelse', []):
            for x in [n] + list(walk_own(n)):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
        if isinstance(s, ast.For):
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    out.add(x.id)
        return out

    def diff(self, st0, paths):
        """Locations changed by the paths relative to st0."""
        ch = {'heap': set(), 'attrs': set(), 'items': set(), 'gov': set(), 'frame': set(), 'ver': set()}
        for p in paths:
            if p.outcome == 'raise':
                continue
            st = p.st
            for a, h in st0.heap.items():
                if st.heap.get(a) is not h and st.heap.get(a) != h:
                    ch['heap'].add(a)
            for k, v in st.attrs.items():
                if st0.attrs.get(k) is not v:
                    ch['attrs'].add(k)
            for k, v in st.items.items():
                if st0.items.get(k) is not v:
                    ch['items'].add(k)
            for k, v in st.ver.items():
                if st0.ver.get(k) != v:
                    ch['ver'].add(k)
            for k, v in st.gov.items():
                if st0.gov.get(k) is not v:
                    ch['gov'].add(k)
            for fid, fr in st0.frames.items():
                e2 = st.frames[fid][0]
                for n, v in e2.items():
                    if fr[0].get(n) is not v:
                        ch['frame'].add((fid, n))
        return ch

    def havoc(self, ch, idx, L):
        st = self.st
        for fid, n in ch['frame']:
            env = st.frames[fid][0]
            old = env.get(n)
            env[n] = T('phi', idx, n if fid == self.cur else (str(n) + '#up'), old if old is not None else UNSET)
        for a in ch['heap']:
            h = st.heap[a]
            if h[0] in ('list', 'set'):
                st.heap[a] = (h[0], h[1] + (T('star', idx, a),)) if self.only_grows(a, h, L) else (h[0], (T('star', idx, a),))
            elif h[0] == 'dict':
                st.heap[a] = ('dict', (), True)
            else:
                names = {}
                for nm, v in h[2]:
                    names[nm] = v
                chg = L.__dict__.setdefault('objchg', {}).get(a)
                new = []
                for nm, v in h[2]:
                    new.append((nm, T('phi', idx, 'obj%s.%s' % (a, nm), v) if (chg is None or nm in chg) else v))
                for nm in (chg or ()):
                    if nm not in names:
                        new.append((nm, T('phi', idx, 'obj%s.%s' % (a, nm), UNSET)))
                st.heap[a] = ('obj', h[1], tuple(new))
        for k in ch['attrs']:
            st.attrs[k] = T('phi', idx, 'attr', k[0], k[1] if isinstance(k[1], (str, Term)) else str(k[1]))
        for k in ch['items']:
            st.items.pop(k, None)
            st.ver[k[0]] = st.ver.get(k[0], 0) + 1
        for k in ch['ver']:
            st.ver[k] = st.ver.get(k, 0) + 1
        for k in ch['gov']:
            st.gov[k] = T('phi', idx, 'global', C(k[0]), C(k[1]))

    def only_grows(self, a, h, L):
        n = len(h[1])
        for p in L.trial:
            if p.outcome == 'raise':
                continue
            h2 = p.st.heap.get(a)
            if h2 is None or h2[0] != h[0] or h2[1][:n] != h[1]:
                return False
        return True

    def objchanges(self, st0, paths, a):
        out = set()
        b = dict(st0.heap[a][2])
        for p in paths:
            if p.outcome == 'raise':
                continue
            e = dict(p.st.heap[a][2])
            for n in set(b) | set(e):
                if b.get(n) is not e.get(n):
                    out.add(n)
        return out

    def generic_loop(self, kind, s, it):
        cur = self.cur
        if self.loop_hook is not None:
            self.loop_hook(kind, s, it)
        const_true = kind == 'while' and isinstance(s.test, ast.Constant) and bool(s.test.value)
        # a replay of the same prefix reaches the loop in the same state: its summary is reused
        key = (id(s), self.loopdepth, cur, self.pos, tuple(self.prefix[:self.pos]), len(self.st.eff), self.st.n)
        hit = self.loopcache.get(key) if self.loopcache is not None else None
        if hit is None:
            hit = self.loop_summary(kind, s, it)
            if self.loopcache is not None:
                self.loopcache[key] = hit
        L, paths, entry, n = hit
        self.st.n = n
        st0 = self.st
        exits = [p for p in paths if p.outcome in ('break', 'return', 'raise')]
        opts = ([] if const_true else ['done']) + exits
        if not opts:
            self.st = entry
            self.eff('loop', L)
            self.eff('diverge', L)
            raise Infeasible()
        k = self.choose(len(opts))
        o = opts[k]
        if o == 'done':
            outer_eff = list(st0.eff)
            self.st = entry.clone()
            self.st.eff = outer_eff
            self.eff('loop', L)
            if kind == 'while':
                self.cur = cur
                if self.truth(self.ev(s.test)):
                    raise Infeasible()
            self.cur = cur
            self.block(s.orelse)
            return
        self.st = o.st.clone()
        self.st.eff = list(st0.eff)
        self.eff('loop', L)
        self.st.eff.extend(o.eff)
        self.cur = cur
        if o.outcome == 'return':
            raise Ret(o.value)
        if o.outcome == 'raise':
            raise Rai(o.value, o.loc)

    def loop_summary(self, kind, s, it):
        st_in = self.st
        idx = len(self.loops)
        L = LoopInfo(idx, kind, self.loc + (self.stack[-1] if self.stack else '?',), None)
        self.loops.append(L)
        if kind == 'for':
            L.iter = self.freeze(it)
        self.loopdepth += 1
        cur = self.cur

        def body():
            self.cur = cur
            if kind == 'for':
                L.elem = self.elem_of(L.iter)
                self.assign(s.target, L.elem)
            else:
                if not self.truth(self.ev(s.test)):
                    raise Infeasible()
            self.block(s.body)
        # pass 1..n: find what the body changes, until stable
        st0 = self.st
        ch = {'heap': set(), 'attrs': set(), 'items': set(), 'gov': set(), 'ver': set(),
              'frame': set((cur, n) for n in self.assigned_names(s) if n in st0.frames[cur][0] and n not in st0.frames[cur][3])}
        L.trial = []
        L.objchg = {}
        L.before = dict(st0.heap)
        L.nodelists = set(a for a, h in st0.heap.items() if h[0] == 'list' and h[1] and all(
            isinstance(x, Term) and x.op != 'star' and self.is_node(x) for x in h[1]))
        for rnd in range(5):
            self.st = st0.clone()
            self.havoc(ch, idx, L)
            entry = self.st
            paths = self.explore(body, entry)
            new = self.diff(entry, paths)
            L.trial = paths
            grown = False
            for k in ch:
                if not new[k] <= ch[k]:
                    grown = True
                ch[k] = ch[k] | new[k]
            for a in list(ch['heap']):
                if st0.heap.get(a) is None:
                    ch['heap'].discard(a)
                elif st0.heap[a][0] == 'obj' and entry.heap[a][0] == 'obj':
                    oc = self.objchanges(entry, paths, a)
                    if not oc <= L.objchg.get(a, set()):
                        grown = True
                    L.objchg[a] = L.objchg.get(a, set()) | oc
            if not grown and rnd > 0:
                break
            if not grown and not any(ch.values()):
                break
        L.paths = paths
        L.entry = entry
        L.changed = ch
        for p in paths:
            for a in ch['heap']:
                h0, h1 = entry.heap.get(a), p.st.heap.get(a)
                if h0 and h1 and h0[0] in ('list', 'set') and h1[1][:len(h0[1])] == h0[1]:
                    self.st_save = self.st
                    self.st = p.st
                    L.appends[(id(p), a)] = tuple(self.freeze(x) for x in h1[1][len(h0[1]):])
                    self.st = self.st_save
        self.loopdepth -= 1
        self.st = st_in
        return L, paths, entry, entry.n

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return T('ext', 'builtins.Ellipsis')
        if isinstance(e.value, (bytes, complex)):
            return T('sym', repr(e.value))
        return C(e.value)

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is None:
            if self.loading:
                return T('unresolved', self.mod, e.id)
            raise Rai(T('exc', 'NameError', e.id), (self.relpath(), e.lineno))
        return v

    def e_Tuple(self, e):
        return tup(self.elts(e.elts))

    def e_List(self, e):
        return self.mklist(self.elts(e.elts))

    def e_Set(self, e):
        return self.alloc('set', tuple(dict.fromkeys(self.elts(e.elts))))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                its = self.known_items(v)
                if its is None:
                    out.append(T('star', -2, self.freeze(v)))
                else:
                    out.extend(its)
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        pairs = []
        opn = False
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ev(v)
                opn = True
            else:
                kk = self.ev(k)
                pairs.append((kk, self.ev(v)))
        return self.alloc('dict', tuple(pairs), opn)

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_Lambda(self, e):
        return self.mkfn(e)

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if v.op not in ('cmp', 'not', 'atom') else FALSE
            if not isand and t:
                return v if not v.op in ('cmp', 'not', 'atom') else TRUE
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            if v.op == 'not':
                return v.a[0] if v.a[0].op in ('cmp', 'atom', 'not') else T('not', v)
            if is_c(v):
                return C(not cv(v))
            if v.op in ('cmp', 'atom'):
                return T('not', v)
            if v.op in ('tup', 'ref') and self.known_items(v) is not None:
                return C(not self.truth(v))
            return T('not', v)
        if is_c(v) and isinstance(cv(v), (int, float)):
            return C({'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Invert': lambda x: ~x}[op](cv(v)))
        if self.is_node(v):
            return self.callmethod(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op], [], {})
        if op == 'USub':
            return T('np', 'negative', (('x', v),)) if self.arraylike(v) else T('un', 'USub', v)
        if op == 'UAdd':
            return v
        return T('un', op, v)

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'FloorDiv': 'floordiv', 'Mod': 'mod',
              'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'MatMult': 'matmul', 'LShift': 'lshift', 'RShift': 'rshift'}

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if is_c(a) and is_c(b):
            x, y = cv(a), cv(b)
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y, 'Pow': lambda: x ** y,
                     'FloorDiv': lambda: x // y, 'Mod': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                     'BitXor': lambda: x ^ y, 'LShift': lambda: x << y, 'RShift': lambda: x >> y}[op]()
                return C(r)
            except Exception:
                pass
        if op == 'Mod' and is_c(a) and isinstance(cv(a), str):
            its = self.known_items(b) if b.op == 'tup' else [b]
            if its is not None and all(is_c(x) for x in its):
                try:
                    return C(cv(a) % tuple(cv(x) for x in its))
                except Exception:
                    pass
            return T('fmt', a, self.freeze(b))
        if op == 'Add':
            for l, r in ((a, b),):
                li, ri = (self.seqkind(l), self.seqkind(r))
                if li and ri and li == ri:
                    if li == 'tup':
                        return tup(list(l.a) + list(r.a))
                    h1 = self.st.heap[l.a[0]][1] if l.op == 'ref' else l.a
                    h2 = self.st.heap[r.a[0]][1] if r.op == 'ref' else r.a
                    return self.mklist(h1 + h2)
                if li == 'list' and r.op in ('map', 'listof', 'phi', 'sym', 'attr', 'item'):
                    h1 = self.st.heap[l.a[0]][1] if l.op == 'ref' else l.a
                    return self.mklist(h1 + (T('star', -2, r),))
                if ri == 'list' and l.op in ('map', 'listof', 'phi', 'sym', 'attr', 'item'):
                    h2 = self.st.heap[r.a[0]][1] if r.op == 'ref' else r.a
                    return self.mklist((T('star', -2, l),) + h2)
        if op == 'Mult' and self.seqkind(a) == 'list' and is_c(b) and isinstance(cv(b), int):
            return self.mklist(list(self.st.heap[a.a[0]][1] if a.op == 'ref' else a.a) * cv(b))
        na, nb = self.is_node(a), self.is_node(b)
        if na:
            r = self.nodeop('__%s__' % self.DUNDER[op], a, b)
            if r is not None:
                return r
        if nb:
            r = self.nodeop('__r%s__' % self.DUNDER[op], b, a)
            if r is not None:
                return r
        if na or nb:
            raise Rai(T('exc', 'TypeError', 'unsupported operand ' + op), self.loc)
        return T('bin', op, self.freeze(a), self.freeze(b))

    def seqkind(self, t):
        if t.op == 'tup':
            return 'tup'
        if t.op == 'list':
            return 'list'
        if t.op == 'ref' and self.st.heap.get(t.a[0], ('',))[0] == 'list':
            return 'list'
        return None

    def nodeop(self, dunder, a, b):
        c = self.cls_of(a) or self.ch
        if c.op != 'cls':
            c = self.ch
        f = self.class_lookup(c, dunder)
        if f is None:
            return None
        return self.call(T('bm', f[0], a), [b], {})

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return FALSE
            left = right
        return res

    NODECMP = {'Gt': '__gt__', 'GtE': '__ge__', 'Lt': '__lt__', 'LtE': '__le__', 'NotEq': '__ne__', 'Eq': '__eq__'}

    def compare(self, op, a, b):
        if op not in ('Is', 'IsNot', 'In', 'NotIn'):
            if self.is_node(a) and not (b is NONE):
                r = self.nodeop(self.NODECMP[op], a, b)
                if r is not None:
                    return r
            elif self.is_node(b) and not (a is NONE) and (self.arraylike(a) or is_c(a) and isinstance(cv(a), (int, float))):
                r = self.nodeop({'Gt': '__lt__', 'GtE': '__le__', 'Lt': '__gt__', 'LtE': '__ge__', 'NotEq': '__ne__', 'Eq': '__eq__'}[op], b, a)
                if r is not None:
                    return r
        if self.arraylike(a) or self.arraylike(b):
            if op in ('Gt', 'GtE', 'Lt', 'LtE', 'Eq', 'NotEq') and not (a is NONE or b is NONE):
                nm = {'Gt': 'greater', 'GtE': 'greater_equal', 'Lt': 'less', 'LtE': 'less_equal', 'Eq': 'equal', 'NotEq': 'not_equal'}[op]
                return T('np', nm, (('x1', self.freeze(a)), ('x2', self.freeze(b))))
        if op in ('Is', 'IsNot'):
            # decide statically when possible, else keep as an atom
            if a is b:
                return C(op == 'Is')
        return T('cmp', op, a, b)

    def arraylike(self, t):
        """Definitely an ndarray (or numpy scalar) value."""
        if t.op == 'val':
            return True
        if t.op == 'np':
            return t.a[0] not in ('shape', 'size', 'ndim', 'count_nonzero', 'array_equal', 'allclose', 'linalg.norm', 'any', 'all') and \
                not (t.a[0] in ('sum', 'prod', 'amax', 'amin', 'mean', 'dot') )
        if t.op in ('bin', 'upd'):
            return any(isinstance(x, Term) and self.arraylike(x) for x in t.a)
        if t.op == 'item':
            return self.arraylike(t.a[0]) and not is_c(t.a[1])
        if t.op == 'un':
            return self.arraylike(t.a[1])
        return False

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.loc = (self.relpath(), e.lineno)
        return self.getattr_(o, e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev(e.slice)
        return self.getitem(o, k)

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.ev(x)
        return T('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e):
        return self.ev(e.value)

    def e_JoinedStr(self, e):
        return T('fmt', *[self.freeze(self.ev(v.value)) if isinstance(v, ast.FormattedValue) else C(v.value) for v in e.values])

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.eff('yield', v)
        return T('sym', 'sent')

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        self.eff('yieldfrom', v)
        return NONE

    def e_ListComp(self, e):
        r = self.comp(e.generators, 0, lambda: self.ev(e.elt))
        return r if isinstance(r, Term) else self.mklist(r)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        r = self.comp(e.generators, 0, lambda: self.ev(e.elt))
        if isinstance(r, Term):
            return T('setof', r)
        return self.alloc('set', tuple(dict.fromkeys(r)))

    def e_DictComp(self, e):
        r = self.comp(e.generators, 0, lambda: tup([self.ev(e.key), self.ev(e.value)]))
        if isinstance(r, Term):
            return T('dictof', r)
        return self.alloc('dict', tuple((x.a[0], x.a[1]) for x in r), False)

    def comp(self, gens, i, elt):
        save = self.cur
        fid = self.newframe({}, self.cur, self.mod)
        self.cur = fid
        try:
            return self.comp1(gens, i, elt)
        finally:
            self.cur = save

    def comp1(self, gens, i, elt):
        g = gens[i]
        it = self.ev(g.iter)
        items = self.known_items(it)
        if items is not None:
            out = []
            for x in items:
                self.assign(g.target, x)
                if all(self.truth(self.ev(c)) for c in g.ifs):
                    if i + 1 < len(gens):
                        r = self.comp1(gens, i + 1, elt)
                        if isinstance(r, Term):
                            out.append(T('star', -2, r))
                        else:
                            out.extend(r)
                    else:
                        out.append(elt())
            return out
        fit = self.freeze(it)
        cur = self.cur
        self.loopdepth += 1

        def body():
            self.cur = cur
            el = self.elem_of(fit)
            self.assign(g.target, el)
            for c in g.ifs:
                if not self.truth(self.ev(c)):
                    raise Cont()
            if i + 1 < len(gens):
                r = self.comp1(gens, i + 1, elt)
                return T('flat', r) if isinstance(r, Term) else T('list', *[self.freeze(x) for x in r])
            return elt()
        paths = self.explore(body)
        el = self.elem_of(fit)
        self.loopdepth -= 1
        res = []
        for p in paths:
            if p.outcome == 'next':
                s2 = self.st
                self.st = p.st
                fv = self.freeze(p.value)
                self.st = s2
                res.append((tuple(x for x in p.facts), fv))
                for ef in p.eff:
                    if ef.kind not in ('fact', 'read'):
                        self.st.eff.append(Eff('incomp', (ef,), ef.loc))
        if len(paths) == 1 and len(res) == 1:
            b = res[0][1]
            if b is el:
                return T('listof', fit) if fit.op not in ('listof', 'map') else fit
            return T('map', fit, el, b, TRUE)
        if len(set(v for _, v in res)) == 1 and len(res) >= 1:
            if all(p.outcome != 'continue' for p in paths):
                return T('map', fit, el, res[0][1], TRUE)
            conds = tuple(sorted(tuple((a, v) for a, v in f) for f, _ in res))
            return T('map', fit, el, res[0][1], T('conds', conds))
        return T('mapn', fit, el, tuple(res))

    # ------------------------------------------------------------------ attributes
    NODE_PROPS = set(['r', 'shape', 'size', 'ndim', 'dtype'])

    def node_val(self, o):
        ep = self.st.epoch
        self.eff('eval', o)
        return T('val', o, ep) if ep else T('val', o)

    def getattr_(self, o, name):
        op = o.op
        ov = self.st.attrs.get((o, name))
        if ov is not None and ov is not DELETED:
            if self.is_node(o) or op in ('fn', 'cls'):
                return ov
            return ov
        if op == 'mod':
            m = self.mods[o.a[0]]
            g = self.st.gov.get((o.a[0], name))
            if g is not None:
                return g
            if name in m.env:
                return m.env[name]
            if o.a[0] + '.' + name in self.mods:
                return T('mod', o.a[0] + '.' + name)
            return T('unresolved', o.a[0], name)
        if op == 'ext':
            full = o.a[0] + '.' + name
            if full in ('numpy.pi',):
                return T('sym', 'pi')
            if full == 'numpy.newaxis':
                return NONE
            if full == 'scipy.linalg.interface':
                pass
            return T('ext', full)
        if op == 'cls':
            r = self.class_lookup(o, name)
            if r is not None:
                v = r[0]
                if v.op == 'cm':
                    return T('bm', v.a[0], o)
                if v.op == 'sm':
                    return v.a[0]
                return v
            if name == '__name__':
                return C(o.a[0].split('.')[-1])
            if name == '__mro__':
                return tup(list(self.mro(o)) + ([] if self.mro(o)[-1].op == 'ext' else [T('ext', 'builtins.object')]))
            if name in ('__bases__', '__base__') and o.a[0] in self.classes:
                b = tuple(self.classes[o.a[0]].bases) or (T('ext', 'builtins.object'),)
                return tup(list(b)) if name == '__bases__' else b[0]
            if name == '__dict__' and o.a[0] in self.classes:
                return self.alloc('dict', tuple((C(k), v) for k, v in self.classes[o.a[0]].env.items()), False)
            return T('attr', o, name)
        if op == 'super':
            r = self.class_lookup(self.cls_of(o.a[1]) or self.ch, name, after=o.a[0])
            if r is None:
                return T('bm', T('ext', 'builtins.object.' + name), o.a[1])
            return self.bind(r[0], o.a[1])
        if op == 'fn':
            if name == '__name__':
                return C(self.fns[o.a[0]].name)
            return T('attr', o, name)
        if op == 'prop':
            if name in ('setter', 'getter', 'deleter'):
                return T('bmeth', o, name)
            if name == 'fget':
                return o.a[0]
        if op == 'ref':
            h = self.st.heap.get(o.a[0])
            if h is not None and h[0] == 'obj':
                cls = h[1]
                r = self.class_lookup(cls, name)
                if r is not None and r[0].op == 'prop':
                    return self.call(r[0].a[0], [o], {})
                for n, v in h[2]:
                    if n == name:
                        return v
                if r is not None:
                    return self.bind(r[0], o)
                if name == '__class__':
                    return cls
                raise Rai(T('exc', 'AttributeError', name), self.loc)
            if h is not None and h[0] == 'argspec' and name in ('args', 'varargs', 'varkw', 'keywords'):
                return h[{'args': 1, 'varargs': 2}.get(name, 3)]
            return T('bmeth', o, name)
        if self.is_node(o):
            return self.node_getattr(o, name)
        if name == '__class__':
            return T('typeof', o)
        if name == 'shape':
            return self.shape_of(o)
        if name == 'size':
            return T('size', o)
        if name == 'ndim':
            return T('ndim', o)
        if name == 'T':
            return self.npcall('transpose', [o], {})
        if op == 'c' or op in ('tup', 'list', 'dict', 'set'):
            return T('bmeth', o, name)
        if op == 'typeof' and name == '__name__':
            return T('attr', o, name)
        self.eff('read', o, name)
        v = self.st.ver.get((o, name), 0)
        return T('attr', o, name)

    def shape_of(self, o):
        return T('shape', o)

    def bind(self, v, o):
        if v.op == 'fn':
            return T('bm', v, o)
        if v.op == 'cm':
            return T('bm', v.a[0], self.cls_of(o) or T('typeof', o))
        if v.op == 'sm':
            return v.a[0]
        if v.op == 'prop':
            return self.call(v.a[0], [o], {})
        return v

    def node_getattr(self, o, name):
        if 'AttributeError' in self.waits and not self.loading and name not in self.NODE_PROPS:
            h = self.hasattr_(o, C(name))
            if h is FALSE or (h.op == 'atom' and not self.truth(h)):
                raise Rai(T('exc', 'AttributeError', name), self.loc)
        cls = self.cls_of(o)
        opened = cls is None or (o.op == 'inst' and len(o.a) > 2 and o.a[2] == 'open')
        c = cls or self.ch
        if name in self.NODE_PROPS and name not in self.inline_props:
            if name == 'r':
                return self.node_val(o)
            v = self.node_val(o)
            if name == 'shape':
                return T('shape', v)
            if name == 'size':
                return T('size', v)
            if name == 'ndim':
                return T('ndim', v)
            return T('attr', v, name)
        if name == '__class__':
            return cls if (cls is not None and not opened) else T('typeof', o)
        if name == '__dict__':
            if o in self.closed:
                return self.alloc('dict', tuple((C(k), self.st.attrs.get((o, k), T('attr', o, k))) for k in self.closed[o]), False)
            return T('attr', o, '__dict__')
        if o.op == 'new':
            for n, v in o.a[1]:
                if n == name:
                    return self.wrap_input(c, name, v)
        if name in ('dterms', 'terms') and not opened and c is not self.ch and not self.loading:
            # as setup_terms() leaves them
            r = self.class_lookup(c, name)
            if r is not None and r[0].op in ('c', 'tup', 'list'):
                return tup([C(x) for x in (self.dterms(c) if name == 'dterms' else self.terms(c))])
        if not opened and name in self.dterms(c) + self.terms(c):
            self.eff('read', o, name)
            return T('attr', o, name)
        r = self.class_lookup(c, name)
        if r is not None:
            v = r[0]
            if v.op == 'prop':
                if self.virtual_prop(o, name):
                    self.eff('read', o, name)
                    return T('attr', o, name)
                return self.call(v.a[0], [o], {})
            if v.op in ('fn', 'cm', 'sm'):
                return self.bind(v, o)
            if v.op == 'ext' and v.a[0].startswith('numpy.'):
                un = v.a[0].split('.')[-1]
                if nplib.ALIAS.get(un, un) in nplib.UFUNCS:
                    return v                     # ufuncs do not bind
                return T('bm', v, o)
            if not opened and name not in ('called_dr_wrt', '_status'):
                return v
        self.eff('read', o, name)
        return T('attr', o, name)

    def virtual_prop(self, o, name):
        return o is not self.selfterm and name in ('J', 'sid', 'short_name')

    def wrap_input(self, cls, name, v):
        if name in self.dterms(cls) and not self.is_node(v) and cls is not self.ch:
            return T('new', self.ch, (('x', v),), 0)
        return v

    def setattr_(self, o, name, v, raw=False, itr=None):
        if o.op == 'cls':
            if self.loading:
                self.classes[o.a[0]].env[name] = v
            else:
                self.eff('setclsattr', o, name, v)
                self.st.attrs[(o, name)] = v
            return
        if o.op == 'mod':
            self.set_global(o.a[0], name, v)
            return
        if o.op == 'ref':
            h = self.st.heap[o.a[0]]
            if h[0] == 'obj':
                r = self.class_lookup(h[1], name)
                if r is not None and r[0].op == 'prop' and not raw:
                    if r[0].a[1] is NONE:
                        raise Rai(T('exc', 'AttributeError', name), self.loc)
                    self.call(r[0].a[1], [o, v], {})
                    return
                at = tuple(x for x in h[2] if x[0] != name) + ((name, v),)
                self.st.heap[o.a[0]] = ('obj', h[1], at)
                self.eff('setobj', o, name, v)
                return
        if o.op in ('attr', 'np', 'val', 'sp', 'sym', 'item', 'bin', 'upd', 'phi') and not self.is_node(o):
            # attribute of an array / matrix object (.data, .shape, .flags.writeable)
            base = o
            if o.op == 'attr' and o.a[1] == 'flags':
                self.eff('setflag', o.a[0], name, v)
                self.st.attrs[(o, name)] = v
                return
            self.eff('setarrattr', o, name, v)
            if name in ('data', 'shape'):
                self.amut(o, 'attribute ' + name)
                nv = T('upd', o, T('.' + name), self.freeze(v))
                self.rewrite_views(o, None, o, nv)
                self.st.attrs[(nv, name)] = v
                return
            self.st.attrs[(o, name)] = v
            return
        if self.is_node(o) and not raw:
            c = self.cls_of(o)
            if c is not None:
                r = self.class_lookup(c, name)
                if r is not None and r[0].op == 'prop' and r[0].a[1] is not NONE:
                    self.call(r[0].a[1], [o, v], {})
                    return
        self.eff('setattr', o, name, self.freeze(v) if v.op in ('ref', 'tup') else v, raw, itr)
        why = self.unpicklable(v)
        if why:
            self.eff('unpicklable', o, name, why)
        self.st.attrs[(o, name)] = v
        if self.on_setattr is not None:
            self.on_setattr(self, o, name, v)
        if self.is_node(o):
            self.st.epoch += 1 if self.bumps(o, name) else 0

    def bumps(self, o, name):
        if not isinstance(name, str):
            return True
        c = self.cls_of(o)
        if c is not None and not (o.op == 'inst' and len(o.a) > 2 and o.a[2] == 'open'):
            return name in self.dterms(c) or name in self.terms(c) or c is self.ch and name == 'x'
        return not name.startswith('_') and name not in ('called_dr_wrt', 'dr_cache', 'dr_lookup', 'dr_cached')

    def hasattr_(self, o, nm):
        if not is_c(nm):
            return T('atom', T('hasattr', o, nm))
        name = cv(nm)
        ov = self.st.attrs.get((o, name))
        if ov is DELETED:
            return FALSE
        if ov is not None:
            return TRUE
        if name in ('dterms', 'compute_r', '_parents') or (name == 'terms'):
            if self.is_node(o):
                return TRUE
            if o.op in ('val', 'np', 'c', 'tup', 'list', 'sp', 'bin', 'shape', 'size', 'ref', 'fn', 'cls', 'un', 'upd'):
                return FALSE
            return T('atom', T('isch', o))
        if o.op == 'ref':
            h = self.st.heap[o.a[0]]
            if h[0] in ('list', 'dict', 'set') and name in ('__len__', '__iter__', '__contains__'):
                return TRUE
            if h[0] == 'obj':
                return C(any(n == name for n, v in h[2]) or self.class_lookup(h[1], name) is not None)
        if self.is_node(o):
            c = self.cls_of(o)
            if o.op == 'new':
                if any(n == name for n, v in o.a[1]):
                    return TRUE
            opened = c is None or (o.op == 'inst' and len(o.a) > 2 and o.a[2] == 'open')
            if not opened and name in self.dterms(c):
                return TRUE
            r = self.class_lookup(c or self.ch, name)
            if r is not None and name not in ('label',):
                return TRUE
            if o in self.closed:
                return C(name in self.closed[o])
            return T('atom', T('hasattr', o, name))
        if o.op in ('val', 'np', 'bin', 'upd') and self.arraylike(o):
            if name in ('shape', 'size', 'ndim', 'ravel', 'reshape', 'T', '__len__', 'dtype'):
                return TRUE
        if o.op == 'c' and name in ('shape', 'size', 'ndim'):
            return FALSE
        if o.op in ('tup', 'list') and name == '__len__':
            return TRUE
        if o.op == 'cls':
            r = self.class_lookup(o, name)
            if r is not None:
                return TRUE
            if not name.startswith('__') and all(k.op == 'cls' and k.a[0] in self.classes or k is T('ext', 'builtins.object') for k in self.mro(o)):
                return FALSE
            return T('atom', T('hasattr', o, name))
        if o.op == 'fn' and (self.loading or not name.startswith('__')):
            return FALSE                 # attributes of functions are tracked
        return T('atom', T('hasattr', o, name))

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        if o.op == 'modvars' and is_c(k) and isinstance(cv(k), str):
            m = self.mods.get(o.a[0])
            v = self.st.gov.get((o.a[0], cv(k)))
            if v is None and m is not None:
                v = m.env.get(cv(k))
            if v is not None:
                return v
        if o.op == 'ext' and o.a[0] == 'sys.modules' and is_c(k) and cv(k) in self.mods:
            return T('mod', cv(k))
        if o.op == 'ref':
            h = self.st.heap.get(o.a[0])
            if h[0] == 'list':
                its = self.known_items(o)
                if its is not None:
                    if is_c(k) and isinstance(cv(k), int):
                        try:
                            return its[cv(k)]
                        except IndexError:
                            raise Rai(T('exc', 'IndexError'), self.loc)
                    if k.op == 'slice' and all(is_c(x) for x in k.a):
                        return self.mklist(its[slice(*[cv(x) for x in k.a])])
                elif is_c(k) and isinstance(cv(k), int):
                    i = cv(k)
                    pre = []
                    for x in h[1]:
                        if x.op == 'star':
                            break
                        pre.append(x)
                    if 0 <= i < len(pre):
                        return pre[i]
                    post = []
                    for x in reversed(h[1]):
                        if x.op == 'star':
                            break
                        post.append(x)
                    if i < 0 and -i <= len(post):
                        return post[-i - 1]
                return T('item', self.freeze(o), self.freeze(k))
            if h[0] == 'dict':
                for a, b in h[1]:
                    if a is k:
                        return b
                if 'KeyError' in self.waits and not self.in_truth(k, o):
                    raise Rai(T('exc', 'KeyError'), self.loc)
                if not h[2] and is_c(k) and all(is_c(a) for a, b in h[1]):
                    raise Rai(T('exc', 'KeyError'), self.loc)
                return T('item', self.freeze(o), self.freeze(k))
            if h[0] == 'argspec' and is_c(k) and cv(k) in (0, 1, 2):
                return h[1 + cv(k)]
            if h[0] == 'obj':
                return self.callmethod(o, '__getitem__', [k], {})
        if o.op in ('tup', 'list'):
            if is_c(k) and isinstance(cv(k), int) and not any(x.op == 'star' for x in o.a):
                try:
                    return o.a[cv(k)]
                except IndexError:
                    raise Rai(T('exc', 'IndexError'), self.loc)
            if k.op == 'slice' and all(is_c(x) for x in k.a) and not any(x.op == 'star' for x in o.a):
                return T(o.op, *o.a[slice(*[cv(x) for x in k.a])])
        if o.op == 'c' and isinstance(cv(o), str) and is_c(k) and isinstance(cv(k), int):
            return C(cv(o)[cv(k)])
        if o.op == 'attr' and o.a[1] == '__dict__' and self.is_node(o.a[0]):
            if is_c(k):
                return self.rawattr(o.a[0], cv(k))
            ov = self.st.attrs.get((o.a[0], k))
            if ov is not None and ov is not DELETED:
                return ov
            return T('attr', o.a[0], k)
        if self.is_node(o):
            return self.callmethod(o, '__getitem__', [k], {})
        fo = self.freeze(o)
        fk = self.freeze(k)
        ov = self.st.items.get((fo, fk))
        if ov is not None and ov is not DELETED:
            return ov
        if 'KeyError' in self.waits and o.op in ('attr', 'sym') and not self.loading and not self.in_truth(k, o):
            raise Rai(T('exc', 'KeyError'), self.loc)
        self.eff('readitem', fo, fk)
        # X[elem(range(len(X)))] is an element of X
        if fk.op == 'elem' and fk.a[0].op == 'range' and len(fk.a[0].a) == 1 and fk.a[0].a[0] is T('len', fo):
            return T('elem', fo, fk.a[1])
        if fk.op == 'idx' and fk.a[0] is fo:
            return T('elem', fo, fk.a[1])
        v = self.st.ver.get(fo, 0)
        return T('item', T('at', fo, v) if v else fo, fk)

    def rawattr(self, o, name):
        ov = self.st.attrs.get((o, name))
        if ov is not None and ov is not DELETED:
            return ov
        if o.op == 'new':
            for n, v in o.a[1]:
                if n == name:
                    return self.wrap_input(o.a[0], name, v)
        self.eff('read', o, name)
        return T('attr', o, name)

    def setitem(self, o, k, v):
        if o.op == 'modvars' and is_c(k) and isinstance(cv(k), str):
            self.set_global(o.a[0], cv(k), v)
            return
        if o.op == 'ref':
            h = self.st.heap[o.a[0]]
            if h[0] == 'dict':
                prs = [(a, b) for a, b in h[1] if a is not k]
                self.st.heap[o.a[0]] = ('dict', tuple(prs) + ((k, v),), h[2])
                self.eff('setitem_local', o, k, v)
                return
            if h[0] == 'list':
                its = self.known_items(o)
                if its is not None and is_c(k) and isinstance(cv(k), int) and -len(its) <= cv(k) < len(its):
                    its[cv(k)] = v
                    self.st.heap[o.a[0]] = ('list', tuple(its))
                    return
                self.eff('setitem_local', o, k, v)
                self.st.heap[o.a[0]] = ('list', (T('star', -3, T('set', *[x for x in h[1]])),))
                return
            if h[0] == 'obj':
                return self.callmethod(o, '__setitem__', [k, v], {})
        if o.op == 'attr' and o.a[1] == '__dict__' and self.is_node(o.a[0]):
            self.setattr_(o.a[0], cv(k) if is_c(k) else k, v, raw=True)
            return
        if self.is_node(o):
            self.eff('nodesetitem', o, k, v)
            self.st.epoch += 1
            return
        fo, fk = self.freeze(o), self.freeze(k)
        if self.arraylike(o) or o.op in ('np', 'val', 'bin', 'upd', 'sp') or (o.op == 'attr' and o.a[1] == 'data'):
            self.amut(o, 'item assignment')
            nv = T('upd', o, fk, self.freeze(v))
            self.rewrite_views(self.viewroot(o), o, o, nv, key=fk, val=self.freeze(v))
            return
        self.eff('setitem', fo, fk, self.freeze(v), self.st.ver.get(fo, 0))
        # later reads under other keys may see this store only if keys alias
        for (c2, k2) in list(self.st.items):
            if c2 is fo and k2 is not fk and not (is_c(k2) and is_c(fk)):
                del self.st.items[(c2, k2)]
        self.st.ver[fo] = self.st.ver.get(fo, 0) + 1
        self.st.items[(fo, fk)] = v

    # ------------------------------------------------------------------ array mutation
    def viewroot(self, t):
        """The array whose memory t may be a view of."""
        while True:
            if t.op == 'np' and t.a[0] in nplib.VIEWS and t.a[1]:
                t = t.a[1][0][1]
            elif t.op == 'item' and self.arraylike(t.a[0]) and (t.a[1].op in ('slice', 'c') or (t.a[1].op == 'tup' and all(x.op in ('slice', 'c', 'ext') for x in t.a[1].a))):
                t = t.a[0]
            elif t.op == 'attr' and t.a[1] in ('data', 'flat', 'T', 'real'):
                t = t.a[0]
            elif t.op == 'upd':
                t = t.a[0]
            else:
                return t

    def amut(self, t, how):
        self.eff('amut', self.viewroot(t), how, t)

    def rewrite_views(self, root, _, target, nv, key=None, val=None):
        """After an in-place update of `target` (a view of root): variables that show the same memory see it."""
        st = self.st
        for fid, fr in st.frames.items():
            env = fr[0]
            if fr[1] is None and fid not in (self.cur,) and env is self.mods.get(fr[2], Module('', '', None)).env:
                continue
            for n, v in list(env.items()):
                if v is target:
                    env[n] = nv
                elif isinstance(v, Term) and v.op == 'upd' and v.a[1].op == '.data' and v.a[2] is target:
                    env[n] = T('upd', v.a[0], v.a[1], nv)
                elif isinstance(v, Term) and v.op in ('np', 'upd', 'item', 'val', 'bin', 'attr', 'sp', 'phi', 'vcall') and self.viewroot(v) is root and v is not root:
                    env[n] = T('upd', v, T('via', target), nv) if v is not target else nv
                elif v is root:
                    env[n] = T('upd', root, T('through', target, key) if key is not None else T('through', target), val if val is not None else nv)
        for k, v in list(st.attrs.items()):
            if v is target:
                st.attrs[k] = nv
            elif v is root:
                st.attrs[k] = T('upd', root, T('through', target, key) if key is not None else T('through', target), val if val is not None else nv)
        for a, h in list(st.heap.items()):
            if h[0] == 'obj' and any(v is target or v is root for n, v in h[2]):
                st.heap[a] = ('obj', h[1], tuple((n, nv if v is target else (T('upd', root, T('through', target), nv) if v is root else v)) for n, v in h[2]))
            elif h[0] == 'list' and any(v is target or v is root for v in h[1]):
                st.heap[a] = ('list', tuple(nv if v is target else (T('upd', root, T('through', target), nv) if v is root else v) for v in h[1]))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        # method calls are dispatched on the receiver
        args_done = None
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value)
            args, kwargs = self.args(e)
            self.loc = (self.relpath(), e.lineno)
            return self.callmethod(o, e.func.attr, args, kwargs)
        f = self.ev(e.func)
        if f.op == 'ext' and f.a[0] == 'builtins.super' and not e.args:
            fr = self.st.frames[self.cur][0]
            own = self.__dict__.get('_owner_stack', [None])[-1]
            s0 = next(iter(fr.values()), None)
            if own is None or s0 is None:
                raise Unsupported('super()')
            return T('super', T('cls', own), s0)
        args, kwargs = self.args(e)
        self.loc = (self.relpath(), e.lineno)
        return self.call(f, args, kwargs)

    def args(self, e):
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                its = self.known_items(v)
                if its is None:
                    args.append(T('starred', self.freeze(v)))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(x))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = self.known_dict(v)
                if d is not None and all(is_c(a) for a, b in d):
                    for a, b in d:
                        kwargs[cv(a)] = b
                else:
                    kwargs['**'] = self.freeze(v)
            else:
                kwargs[k.arg] = v
        return args, kwargs

    # methods that are dispatched dynamically on other nodes (each has its own contract)
    VIRTUAL = set(['dr_wrt', 'compute_dr_wrt', 'compute_r', 'lop', 'lmult_wrt', 'compute_lop', 'compute_rop', 'on_changed', 'is_dr_wrt',
                   'clear_cache', 'clear_cache_wrt', 'set', 'replace', '_call_on_changed', '_compute_dr_wrt_sliced',
                   '_invalidate_cacheprop_names', 'remove_redundancy', 'tree_iterator', 'is_valid', 'loop_children_do',
                   'print_labeled_residuals', 'show_tree', 'add_dterm', 'copy', 'minimize', 'is_ch_baseclass'])
    HOOKS = set(['compute_r', 'compute_dr_wrt', 'on_changed', 'is_valid'])

    def callmethod(self, o, name, args, kwargs):
        if self.is_node(o):
            cls = self.cls_of(o)
            opened = cls is None or (o.op == 'inst' and len(o.a) > 2 and o.a[2] == 'open')
            if name == '__setattr__':
                nm = args[0]
                itr = args[2] if len(args) > 2 else kwargs.get('itr', NONE)
                self.setattr_(o, cv(nm) if is_c(nm) else nm, args[1], itr=itr)
                return NONE
            if name == '__setitem__':
                self.setitem(o, args[0], args[1])
                return NONE
            ov = self.st.attrs.get((o, name))
            if ov is not None and ov is not DELETED:
                return self.call(ov, args, kwargs)
            if name in self.prim or (name in self.HOOKS and opened) or (name in self.VIRTUAL and o is not self.selfterm):
                return self.vcall(o, name, args, kwargs)
            r = self.class_lookup(cls or self.ch, name)
            if r is None:
                if name in ('add', 'append', 'update', 'pop'):
                    pass
                return self.vcall(o, name, args, kwargs)
            return self.call(self.node_getattr(o, name), args, kwargs)
        if o.op == 'ref':
            h = self.st.heap.get(o.a[0])
            if h and h[0] == 'obj':
                return self.call(self.getattr_(o, name), args, kwargs)
            return self.container_method(o, h, name, args, kwargs)
        if o.op in ('mod', 'cls', 'super', 'fn', 'prop'):
            if o.op == 'prop' and name in ('setter',):
                return T('prop', o.a[0], args[0])
            return self.call(self.getattr_(o, name), args, kwargs)
        if o.op == 'clock':
            return T('elapsed')
        if o.op == 'ext':
            if (o, name) in self.st.attrs:
                return self.call(self.st.attrs[(o, name)], args, kwargs)
            return self.call(T('ext', o.a[0] + '.' + name), args, kwargs)
        if o.op == 'c' and isinstance(cv(o), str):
            return self.str_method(o, name, args)
        if (o, name) in self.st.attrs and self.st.attrs[(o, name)] is not DELETED:
            return self.call(self.st.attrs[(o, name)], args, kwargs)
        return self.opaque_method(o, name, args, kwargs)

    def vcall(self, o, name, args, kwargs):
        fa = tuple(self.freeze(x) for x in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        self.eff('vcall', o, name, fa, fk)
        if name == 'set' and any(v.op == 'ref' for v in kwargs.values()):
            self.eff('given', o, tuple(sorted(kwargs.items())))
        ep = self.st.epoch
        if name in ('clear_cache', 'set', 'replace', 'on_changed', 'remove_redundancy', 'add_dterm', '_call_on_changed'):
            self.st.epoch += 1
        return T('vcall', o, name, fa, fk, ep) if ep else T('vcall', o, name, fa, fk)

    def str_method(self, o, name, args):
        s = cv(o)
        if name == 'join' and args:
            its = self.known_items(args[0])
            if its is not None and all(is_c(x) for x in its):
                return C(s.join(cv(x) for x in its))
        if all(is_c(x) for x in args) and name in ('lower', 'upper', 'split', 'strip', 'startswith', 'endswith', 'replace'):
            try:
                r = getattr(s, name)(*[cv(x) for x in args])
                return self.mklist([C(x) for x in r]) if isinstance(r, list) else C(r)
            except Exception:
                pass
        return T('strm', o, name, tuple(self.freeze(x) for x in args))

    def container_method(self, o, h, name, args, kwargs):
        a = o.a[0]
        kind = h[0]
        if kind == 'list':
            its = self.known_items(o)
            if name == 'append':
                self.st.heap[a] = ('list', h[1] + (args[0],))
                return NONE
            if name == 'extend':
                self.list_extend(o, args[0])
                return NONE
            if name == 'insert' and its is not None and is_c(args[0]):
                its.insert(cv(args[0]), args[1])
                self.st.heap[a] = ('list', tuple(its))
                return NONE
            if name == 'pop':
                i = cv(args[0]) if args and is_c(args[0]) else (-1 if not args else None)
                if its is not None and i is not None:
                    if not its:
                        raise Rai(T('exc', 'IndexError'), self.loc)
                    v = its.pop(i)
                    self.st.heap[a] = ('list', tuple(its))
                    return v
                # last element known?
                if i == -1 and h[1] and h[1][-1].op != 'star':
                    self.st.heap[a] = ('list', h[1][:-1])
                    return h[1][-1]
                v = T('popped', self.freeze(o), C(i) if i is not None else args[0], self.fresh())
                self.eff('mut', self.freeze(o), 'pop', tuple(args))
                self.st.heap[a] = ('list', (T('star', -3, T('set', *h[1])),))
                return v
            if name == 'index' or name == 'count':
                return T('mcall', self.freeze(o), name, tuple(args))
            if name in ('sort', 'reverse', 'remove', 'clear'):
                if name == 'clear':
                    self.st.heap[a] = ('list', ())
                elif name == 'sort' and its is not None and all(is_c(x) for x in its):
                    self.st.heap[a] = ('list', tuple(C(x) for x in sorted(cv(y) for y in its)))
                elif name == 'sort' and kwargs and its is not None and self.b_sorted(o, **kwargs).op == 'ref':
                    self.st.heap[a] = self.st.heap[self.b_sorted(o, **kwargs).a[0]]
                elif name == 'sort' and not kwargs:
                    self.st.heap[a] = ('list', (T('star', -2, T('sorted', self.freeze(o))),))
                else:
                    self.st.heap[a] = ('list', (T('star', -3, T('set', *h[1])),))
                return NONE
            if name == 'copy':
                return self.mklist(h[1])
        if kind == 'set':
            its = self.known_items(o)
            if name == 'add':
                if args[0] not in h[1]:
                    self.st.heap[a] = ('set', h[1] + (args[0],))
                return NONE
            if name in ('union', 'intersection', 'difference') and args:
                return self.setop(name, o, args[0])
            if name in ('update', 'discard', 'remove', 'clear'):
                if name == 'clear':
                    self.st.heap[a] = ('set', ())
                elif name in ('discard', 'remove') and its is not None:
                    self.st.heap[a] = ('set', tuple(x for x in its if x is not args[0]))
                else:
                    u = self.setop('union', o, args[0])
                    hh = self.st.heap.get(u.a[0]) if u.op == 'ref' else None
                    self.st.heap[a] = hh if hh else ('set', (T('star', -2, u),))
                return NONE
            if name == 'copy':
                return self.alloc('set', h[1])
        if kind == 'dict':
            if name == 'items':
                return T('dictitems', o)
            if name == 'keys':
                d = self.known_dict(o)
                return self.mklist([k for k, v in d]) if d is not None else T('dictkeys', self.freeze(o))
            if name == 'values':
                d = self.known_dict(o)
                return self.mklist([v for k, v in d]) if d is not None else T('dictvalues', self.freeze(o))
            if name == 'get':
                for k, v in h[1]:
                    if k is args[0]:
                        return v
                if not h[2] and is_c(args[0]) and all(is_c(k) for k, v in h[1]):
                    return args[1] if len(args) > 1 else NONE
                if self.in_truth(args[0], o):
                    return self.getitem(o, args[0])
                return args[1] if len(args) > 1 else NONE
            if name == 'pop':
                for k, v in h[1]:
                    if k is args[0]:
                        self.st.heap[a] = ('dict', tuple(x for x in h[1] if x[0] is not k), h[2])
                        return v
                if h[2]:
                    self.eff('dictpop', o, args[0])
                return args[1] if len(args) > 1 else T('item', self.freeze(o), args[0])
            if name == 'update':
                d = self.known_dict(args[0]) if args else None
                if d is not None and not kwargs:
                    m = [(k, v) for k, v in h[1] if not any(k is k2 for k2, _ in d)]
                    self.st.heap[a] = ('dict', tuple(m) + tuple(d), h[2])
                else:
                    self.st.heap[a] = ('dict', h[1], True)
                return NONE
            if name == 'setdefault':
                for k, v in h[1]:
                    if k is args[0]:
                        return v
                v = args[1] if len(args) > 1 else NONE
                self.st.heap[a] = ('dict', h[1] + ((args[0], v),), h[2])
                return v
            if name == 'clear':
                self.st.heap[a] = ('dict', (), False)
                return NONE
            if name == 'copy':
                return self.alloc(*h)
        return T('mcall', self.freeze(o), name, tuple(self.freeze(x) for x in args))

    def setop(self, name, a, b):
        ia, ib = self.known_items(a), self.known_items(b)
        if ia is not None and ib is not None and all(is_c(x) for x in ia + ib):
            if name == 'union':
                r = list(dict.fromkeys(ia + ib))
            elif name == 'intersection':
                r = [x for x in ia if x in ib]
            else:
                r = [x for x in ia if x not in ib]
            return self.alloc('set', tuple(r))
        if ia is not None and not ia and name in ('intersection', 'difference'):
            return self.alloc('set', ())
        fa, fb = self.setnorm(a), self.setnorm(b)
        if name in ('union', 'intersection'):
            fa, fb = sorted([fa, fb])
        return T('setop', name, fa, fb)

    def setnorm(self, t):
        t = self.freeze(t)
        while t.op in ('setof', 'listof', 'dictkeys', 'sorted'):
            t = t.a[0]
        if t.op == 'list' or t.op == 'tup':
            t = T('set', *t.a)
        return t

    def opaque_method(self, o, name, args, kwargs):
        fo = self.freeze(o)
        if o.op == 'file' and o.a and is_c(o.a[0]) and name in ('read', 'readlines', 'close') and \
                os.path.realpath(str(cv(o.a[0]))).startswith(os.path.realpath(self.repo) + os.sep):
            if name == 'close':
                return NONE
            try:
                txt = open(cv(o.a[0])).read()
            except (IOError, OSError):
                raise Rai(T('exc', 'IOError'), self.loc)
            return C(txt) if name == 'read' else self.mklist([C(l) for l in txt.splitlines(True)])
        fa = [self.freeze(x) for x in args]
        # sets / dicts held in attributes
        if name in ('union', 'intersection', 'difference') and len(args) == 1 and not self.arraylike(o):
            return self.setop(name, o, args[0])
        if name in ('items', 'keys', 'values') and not args:
            v = self.versioned(fo)
            return T({'items': 'dictitems', 'keys': 'dictkeys', 'values': 'dictvalues'}[name], v)
        if name == 'clear' and not args:
            self.eff('mut', fo, name, ())
            for (c2, k2) in list(self.st.items):
                if c2 is fo:
                    del self.st.items[(c2, k2)]
            self.st.ver[fo] = self.st.ver.get(fo, 0) + 1
            return NONE
        if name in nplib.CONTAINER_MUTATORS and not (name in ('add', 'pop', 'update') and self.arraylike(o)):
            d = self.known_dict(args[0]) if name == 'update' and len(args) == 1 else [] if name == 'update' and not args else None
            if d is not None:
                for k, v in d + [(C(k), v) for k, v in kwargs.items()]:
                    self.setitem(o, k, v)
                return NONE
            self.eff('mut', fo, name, tuple(fa))
            v = self.st.ver.get(fo, 0)
            for (c2, k2) in list(self.st.items):
                if c2 is fo:
                    del self.st.items[(c2, k2)]
            self.st.ver[fo] = v + 1
            return T('mcall', fo, name, tuple(fa), v) if name in ('pop', 'setdefault', 'popitem') else NONE
        if name in nplib.ARRAY_MUTATORS:
            self.amut(o, 'method ' + name)
            if name == 'fill':
                nv = T('upd', o, T('fill'), fa[0])
                self.rewrite_views(self.viewroot(o), o, o, nv)
            return NONE
        if name in ('__getitem__',):
            return self.getitem(o, args[0])
        if name == '__setitem__':
            self.setitem(o, args[0], args[1])
            return NONE
        if name in ('copy',) and not args and (o.op in ('dictof', 'opendict', 'copyof') or o.op == 'attr' and o.a[1] == '__dict__'):
            return T('copyof', fo, 'copy')
        if name == 'get' and o.op in ('attr', 'sym') and len(args) in (1, 2) and not self.loading:
            if self.in_truth(args[0], o):
                return self.getitem(o, args[0])
            return args[1] if len(args) > 1 else NONE
        if name == 'get' and o.op in ('attr', 'sym', 'item', 'dictof', 'kw', 'phi') and len(args) in (1, 2):
            return T('mcall', self.versioned(fo), 'get', tuple(fa))
        if name in nplib.ARRAY_METHODS:
            return self.array_method(o, name, args, kwargs)
        if name in nplib.SPARSE_METHODS:
            return T('spm', fo, name, tuple(fa), tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items())))
        if name == '__float__' or name == '__int__':
            return T('mcall', fo, name, ())
        self.eff('call', T('attr', fo, name), tuple(fa), tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items())))
        return T('mcall', fo, name, tuple(fa)) if not kwargs else T('mcall', fo, name, tuple(fa), tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items())))

    def array_method(self, o, name, args, kwargs):
        if name == 'reshape':
            if len(args) > 1:
                args = [tup(args)]
            return self.npcall('reshape', [o] + args, kwargs)
        if name == 'transpose':
            if len(args) > 1:
                args = [tup(args)]
            return self.npcall('transpose', [o] + args, kwargs)
        if name == 'flatten':
            return self.npcall('copy', [self.npcall('ravel', [o], {})], {})
        if name == 'dot' and o.op in ('sp', 'spm', 'vcall', 'attr', 'phi', 'item', 'sym'):
            pass
        return self.npcall(name, [o] + args, kwargs)

    def bind_sig(self, sig, args, kwargs, f=''):
        """-> tuple of (param, term) in signature order, defaults dropped."""
        out = {}
        names = [n for n, d in sig]
        for i, v in enumerate(args):
            if v.op == 'starred' or i >= len(names):
                out[str(i)] = self.freeze(v)
            else:
                out[names[i]] = self.freeze(v)
        for k, v in kwargs.items():
            out[k] = self.freeze(v)
        res = []
        for n, d in sig:
            if n in out:
                v = out.pop(n)
                if d is not nplib.REQ and is_c(v) and type(cv(v)) is type(d) and cv(v) == d:
                    continue
                if d is not nplib.REQ and v.op == 'tup' and isinstance(d, tuple) and tuple(cv(x) if is_c(x) else None for x in v.a) == d:
                    continue
                res.append((n, v))
        for k in sorted(out):
            res.append((k, out[k]))
        return tuple(res)

    NP_KIND_ALIAS = {'quicksort': None}

    def npcall(self, name, args, kwargs):
        if self.ext_hooks and 'numpy.' + name in self.ext_hooks:
            r = self.ext_hooks['numpy.' + name](self, args, kwargs)
            if r is not None:
                return r
        if name in ('any', 'all') and len(args) == 1 and not kwargs:
            its = self.known_items(args[0])
            if its is not None and all(x in (TRUE, FALSE) for x in its):
                return C((any if name == 'any' else all)(x is TRUE for x in its))
        name = nplib.ALIAS.get(name, name)
        sig = nplib.SIG.get(name)
        if 'out' in kwargs and kwargs['out'] is not NONE:
            self.amut(kwargs['out'], 'out=')
        if name in nplib.NP_MUTATING_FUNCS and args:
            self.amut(args[0], 'np.' + name)
            self.rewrite_views(self.viewroot(args[0]), None, args[0], T('upd', args[0], T('np.' + name), tup([self.freeze(x) for x in args[1:]])))
            return NONE
        if sig is None:
            sig = []
        args = list(args)
        if '**' in kwargs:
            return self.opaque(T('ext', 'numpy.' + name), args, kwargs)
        if name == 'arange':
            if len(args) == 1 and 'stop' not in kwargs:
                args = [C(0), args[0]]
            elif 'stop' in kwargs and not args and 'start' not in kwargs:
                args = [C(0)]
        b = self.bind_sig(sig, args, kwargs, name)
        d = dict(b)
        # nodes handed to numpy are read through __array__
        b = tuple((n, self.as_np(v)) for n, v in b)
        if name == 'prod' and len(b) == 1 and b[0][1].op == 'shape':
            return T('size', b[0][1].a[0])
        if name == 'shape' and len(b) == 1:
            return T('shape', b[0][1])
        if name == 'size' and len(b) == 1:
            return T('size', b[0][1])
        if name == 'ndim' and len(b) == 1:
            return T('ndim', b[0][1])
        if name in ('maximum', 'minimum') and len(b) == 2 and is_c(b[0][1]) and is_c(b[1][1]):
            f = {'maximum': max, 'minimum': min}[name]
            return C(f(cv(b[0][1]), cv(b[1][1])))
        if name == 'reshape':
            ns = dict(b).get('newshape')
            if ns is not None and ns.op == 'list':
                ns = tup(ns.a)
            if ns is not None and ns is C(-1) or ns is tup([C(-1)]):
                x = dict(b)
                if 'order' not in x:
                    return self.npcall('ravel', [x['a']], {})
            if ns is not None and ns is not dict(b).get('newshape'):
                b = tuple((n, ns if n == 'newshape' else v) for n, v in b)
        if name == 'ravel' and b and b[0][1].op == 'np' and b[0][1].a[0] == 'ravel':
            return b[0][1]
        return T('np', name, b)

    def as_np(self, v):
        return v

    def call(self, f, args, kwargs):
        self.tick()
        op = f.op
        if op == 'fn':
            return self.call_fn(f, args, kwargs)
        if op == 'bm':
            g, o = f.a
            if g.op == 'fn':
                return self.call_fn(g, [o] + list(args), kwargs)
            if g.op == 'ext':
                if g.a[0] == 'builtins.object.__setattr__':
                    nm = args[0]
                    self.setattr_(o, cv(nm) if is_c(nm) else nm, args[1], raw=True)
                    return NONE
                if g.a[0].startswith('builtins.object.'):
                    if g.a[0] == 'builtins.object.__new__' and args and args[0].op == 'cls' and self.is_ch_class(args[0]):
                        return T('inst', args[0], 'made%d' % self.fresh())
                    return T('objcall', g, o, tuple(self.freeze(x) for x in args))
                return self.ext_call(g, [o] + list(args), kwargs)
            return self.opaque(f, args, kwargs)
        if op == 'cls':
            return self.construct(f, args, kwargs)
        if op == 'ext':
            return self.ext_call(f, args, kwargs)
        if op == 'bmeth':
            return self.callmethod(f.a[0], f.a[1], args, kwargs)
        if op == 'cm' or op == 'sm':
            return self.call(f.a[0], args, kwargs)
        if op == 'attr':
            if f.a[0].op == 'cls' or self.is_node(f.a[0]):
                return self.opaque(f, args, kwargs)
            return self.opaque(f, args, kwargs)
        if op == 'ref':
            h = self.st.heap.get(f.a[0])
            if h and h[0] == 'obj':
                r = self.class_lookup(h[1], '__call__')
                if r:
                    return self.call_fn(r[0], [f] + list(args), kwargs)
        if op == 'typeof' and self.is_node(f.a[0]):
            return T('newlike', f.a[0], tuple(self.freeze(x) for x in args), tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items())))
        if op == 'inst' or self.is_node(f):
            r = self.class_lookup(self.cls_of(f) or self.ch, '__call__')
            if r:
                return self.call_fn(r[0], [f] + list(args), kwargs)
        if op == 'wraps':
            return args[0]
        if op == 'clock':
            return T('elapsed')
        return self.opaque(f, args, kwargs)

    def opaque(self, f, args, kwargs):
        fa = tuple(self.freeze(x) for x in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        self.eff('call', f, fa, fk)
        self.st.epoch += 1 if not self.loading else 0
        return T('call', f, fa, fk, self.st.epoch)

    def call_fn(self, f, args, kwargs):
        info = self.fns[f.a[0]]
        node = info.node
        if self.stubs and not self.loading:
            stub = self.stubs.get(info.qual.split('.')[-1])
            if stub is not None:
                r = stub(self, f, args, kwargs)
                if r is not None:
                    return r
        if info.isgen:
            fa = tuple(self.freeze(x) for x in args)
            return T('gen', f, fa)
        depth = sum(1 for x in self.stack if x == info.qual)
        if depth >= 2 or len(self.stack) > self.MAXDEPTH:
            fa = tuple(self.freeze(x) for x in args)
            self.eff('rcall', f, fa)
            return T('rcall', f, fa, tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items())))
        self.used_fns.add(info.qual)
        env = {}
        a = node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        args = list(args)
        if any(x.op == 'starred' for x in args):
            i = next(i for i, x in enumerate(args) if x.op == 'starred')
            st = args[i]
            if a.vararg and i >= len(pos):
                pass
            else:
                # unknown number of positional arguments
                nfill = len(pos) - i
                args = args[:i] + [self.getitem(st.a[0], C(j)) for j in range(max(nfill, 0))]
        for n, v in zip(pos, args):
            env[n] = v
        extra = args[len(pos):]
        if extra and not a.vararg:
            raise Rai(T('exc', 'TypeError', 'too many arguments'), self.loc)
        if a.vararg:
            if len(extra) == 1 and extra[0].op == 'starred':
                env[a.vararg.arg] = extra[0].a[0]
            else:
                env[a.vararg.arg] = tup(extra)
        kw = dict(kwargs)
        star = kw.pop('**', None)
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in kwonly:
                if k in env:
                    raise Rai(T('exc', 'TypeError', 'multiple values'), self.loc)
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise Rai(T('exc', 'TypeError', 'unexpected keyword ' + k), self.loc)
        if a.kwarg:
            if star is not None and not rest:
                env[a.kwarg.arg] = star
            else:
                env[a.kwarg.arg] = self.alloc('dict', tuple((C(k), v) for k, v in rest.items()), star is not None)
        nd = len(info.defaults)
        for n, d in zip(pos[len(pos) - nd:], info.defaults):
            if n not in env:
                env[n] = T('kwget', star, C(n), d) if star is not None else d
        for n, d in info.kwdefaults:
            if n not in env:
                if d is None:
                    raise Rai(T('exc', 'TypeError', 'missing'), self.loc)
                env[n] = d
        for n in pos:
            if n not in env:
                if star is not None:
                    env[n] = self.getitem(star, C(n))
                else:
                    raise Rai(T('exc', 'TypeError', 'missing argument ' + n), self.loc)
        save = (self.cur, self.mod, self.loc)
        saveown = self.__dict__.setdefault('_owner_stack', [None])
        self.mod = info.mod
        self.stack.append(info.qual)
        saveown.append(info.owner)
        self.cur = self.newframe(env, info.frame, info.mod)
        mine = self.cur
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            try:
                self.block(node.body)
            except Ret as r:
                return r.v
            return NONE
        finally:
            self.cur, self.mod, loc = save[0], save[1], save[2]
            self.loc = loc if self.stack else self.loc
            self.stack.pop()
            saveown.pop()

    def construct(self, cls, args, kwargs):
        if cls.a[0].endswith('utils.timer') and not self.loading:
            return T('clock')
        if self.is_ch_class(cls) and not self.loading or (self.is_ch_class(cls) and self.loading):
            c = cls
            if cls.a[0] == self.pkg + '.ch.Ch' and args and args[0].op == 'fn':
                c = T('cls', self.pkg + '.ch.ChLambda')
            kw = dict(kwargs)
            prs = {}
            opts = {}
            order = self.decl[c][2] if getattr(self, 'decl', None) and self.decl.get(c) else ()
            if c.a[0] == self.pkg + '.ch.Ch':
                order = ('x',)
            for i, v in enumerate(args):
                if v.op == 'starred':
                    prs['*'] = v
                elif i < len(order):
                    prs[order[i]] = v
                elif getattr(self, 'decl', None) and self.decl.get(c):
                    raise Rai(T('exc', 'IndexError', 'too many inputs'), self.loc)
                else:
                    prs['#%d' % i] = v
            for k, v in kw.items():
                prs[k] = v
            fr = tuple((k, v if v.op == 'ref' and self.st.heap[v.a[0]][0] == 'obj' else self.freeze(v)) for k, v in sorted(prs.items()))
            n = self.fresh()
            r = T('new', c, fr, n)
            self.eff('new', r)
            return r
        info = self.classes.get(cls.a[0])
        m = self.mro(cls)
        if any(c.op == 'ext' and c.a[0] != 'builtins.object' for c in m):
            return T('exc', cls.a[0], *[self.freeze(x) for x in args])
        o = self.alloc('obj', cls, ())
        r = self.class_lookup(cls, '__init__')
        if r is not None:
            self.call(self.bind(r[0], o), args, kwargs)
        return o

    # ------------------------------------------------------------------ externals
    def ext_call(self, f, args, kwargs):
        name = f.a[0]
        if name in self.ext_hooks:
            r = self.ext_hooks[name](self, args, kwargs)
            if r is not None:
                return r
        if name == 'builtins.object.__setattr__' and len(args) == 3:
            nm = args[1]
            self.setattr_(args[0], cv(nm) if is_c(nm) else nm, args[2], raw=True)
            return NONE
        if name.startswith('builtins.'):
            return self.builtin(name[9:], args, kwargs)
        if name.startswith('numpy.'):
            return self.npcall(name[6:], args, kwargs)
        if name.startswith('scipy.sparse.') and name.count('.') == 2:
            nm = name.split('.')[-1]
            sig = nplib.SP_SIG.get(nm, [])
            b = self.bind_sig(sig, args, kwargs)
            if nm in ('issparse', 'isspmatrix'):
                x = b[0][1]
                if x.op == 'sp':
                    return TRUE
                if x.op == 'linop':
                    return FALSE
                if x.op == 'spm':
                    return C(x.a[1] in ('tocsc', 'tocsr', 'tocoo', 'tolil', 'asformat', 'multiply')) if x.a[1] in ('tocsc', 'tocsr', 'tocoo', 'todense', 'toarray') else T('atom', T('issparse', x))
                if x.op in ('val', 'c') or self.arraylike(x) and x.op == 'np' and x.a[0] not in ('dot', 'transpose', 'copy'):
                    return FALSE
                if x.op == 'np' and x.a[0] in ('transpose', 'copy'):
                    return self.ext_call(f, [x.a[1][0][1]], {})
                return T('atom', T('issparse', x))
            return T('sp', nm, b)
        short = name.split('.')[-1]
        if name in ('inspect.getargspec', 'inspect.getfullargspec') and len(args) == 1 and args[0].op in ('fn', 'bm'):
            fn = args[0] if args[0].op == 'fn' else args[0].a[0]
            if fn.op == 'fn':
                a = self.fns[fn.a[0]].node.args
                names = self.mklist([C(x.arg) for x in a.args])
                return self.alloc('argspec', names, C(a.vararg.arg) if a.vararg else NONE, C(a.kwarg.arg) if a.kwarg else NONE)
        if name == 'inspect.getmembers' and len(args) == 2 and args[0].op == 'cls':
            seen = {}
            for c in reversed(self.mro(args[0])):
                if c.op == 'cls' and c.a[0] in self.classes:
                    seen.update(self.classes[c.a[0]].env)
            out = []
            for k in sorted(seen):
                v = seen[k]
                if isinstance(v, Term) and self.truth(self.call(args[1], [v], {})):
                    out.append(tup([C(k), v]))
            return self.mklist(out)
        if name == 'functools.reduce':
            return self.b_reduce(args)
        if name == 'functools.wraps':
            return T('wraps', self.freeze(args[0]))
        if name in ('copy.copy', 'copy.deepcopy'):
            self.eff('ext', f, tuple(self.freeze(x) for x in args))
            x = args[0]
            if x.op == 'ref':
                h = self.st.heap[x.a[0]]
                if h[0] != 'obj':
                    if short == 'deepcopy' and h[0] in ('list', 'set', 'dict'):
                        deep = lambda y: self.ext_call(f, [y], {}) if isinstance(y, Term) and y.op == 'ref' else y
                        if h[0] == 'dict':
                            return self.alloc('dict', tuple((k, deep(v)) for k, v in h[1]), *h[2:])
                        return self.alloc(h[0], tuple(deep(y) for y in h[1]), *h[2:])
                    return self.alloc(*h)
            if self.arraylike(x) or x.op == 'sp':
                return self.npcall('copy', [x], {})
            return T('copyof', self.freeze(x), short)
        if name.startswith('os.path.') and all(is_c(x) for x in args):
            try:
                return C(getattr(os.path, short)(*[cv(x) for x in args]))
            except Exception:
                pass
        if name == 'collections.OrderedDict' and len(args) == 1 and not kwargs:
            r = self.b_dict(args[0])
            if r.op == 'ref':
                return r
        if name == 'collections.OrderedDict' and not args:
            return self.alloc('dict', (), False)
        if name in ('weakref.WeakKeyDictionary', 'weakref.WeakValueDictionary', 'weakref.WeakSet'):
            r = self.alloc('dict', (), False)
            self.weak.add(r.a[0])
            return r
        if name.startswith('scipy.sparse.linalg') and short == 'LinearOperator':
            return T('linop', *[self.freeze(x) for x in args])
        fa = tuple(self.freeze(x) for x in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        self.eff('ext', f, fa, fk)
        # callbacks handed to an external function may run: the epoch moves on
        if any(x.op in ('fn', 'bm') for x in list(args) + list(kwargs.values())):
            self.st.epoch += 1
        if name.split('.')[0] in ('time',):
            return T('ecall', f, fa, fk, self.fresh())
        return T('ecall', f, fa, fk)

    def b_reduce(self, args):
        fn, lst = args[0], args[1]
        its = self.known_items(lst)
        if its is not None and len(args) == 2:
            if not its:
                raise Rai(T('exc', 'TypeError', 'reduce of empty'), self.loc)
            acc = its[0]
            for x in its[1:]:
                acc = self.call(fn, [acc, x], {})
            return acc
        if its is not None:
            acc = args[2]
            for x in its:
                acc = self.call(fn, [acc, x], {})
            return acc
        x, y = T('sym', '%acc'), T('sym', '%item')
        b = self.call(fn, [x, y], {})
        return T('fold', self.freeze(b), self.freeze(lst), *(self.freeze(z) for z in args[2:]))

    def builtin(self, nm, args, kwargs):
        A = args
        m = getattr(self, 'b_' + nm, None)
        if m is not None:
            return m(*args, **kwargs)
        fa = tuple(self.freeze(x) for x in A)
        if nm in ('print', 'input'):
            self.eff('ext', T('ext', 'builtins.' + nm), fa)
            return NONE
        if nm.endswith('Error') or nm in ('Exception', 'BaseException', 'StopIteration', 'RuntimeWarning'):
            return T('exc', nm, *fa)
        if nm in ('exec', 'eval'):
            return self.b_exec_(*args)
        if nm == 'open':
            return T('file', *fa)
        return T('builtin', nm, fa)

    def b_exec_(self, src, *rest):
        if is_c(src) and isinstance(cv(src), str) and all(r is T('modvars', self.mod) for r in rest):
            self.execd.append((self.mod, cv(src)))
            try:
                tree = ast.parse(cv(src))
            except SyntaxError:
                return NONE
            loc = self.loc
            for n in ast.walk(tree):
                if hasattr(n, 'lineno'):
                    n.lineno = loc[1]
            for s in tree.body:
                self.stmt(s)
            return NONE
        if self.loading and src.op != 'c':
            self.notes.append('exec of unresolved text at %s' % (self.loc,))
        else:
            self.eff('ext', T('ext', 'builtins.exec'), (self.freeze(src),))
        return NONE

    def b_len(self, x):
        its = self.known_items(x)
        if its is not None:
            isset = x.op == 'set' or (x.op == 'ref' and self.st.heap.get(x.a[0], (None,))[0] == 'set')
            if isset and len(its) > 1 and not all(i.op in ('c', 'inst', 'cls', 'fn') for i in its):
                return T('len', T('set', *[self.freeze(i) for i in its]))
            return C(len(its))
        d = self.known_dict(x)
        if d is not None:
            return C(len(d))
        if x.op == 'c' and isinstance(cv(x), str):
            return C(len(cv(x)))
        if x.op == 'c' and isinstance(cv(x), (int, float)) or x is NONE:
            raise Rai(T('exc', 'TypeError', 'no len'), self.loc)
        if x.op == 'shape':
            return T('ndim', x.a[0])
        if self.is_node(x):
            return T('len', self.node_val(x))
        if x.op in ('listof', 'sorted', 'enumerate', 'dictitems', 'dictkeys', 'dictvalues') and x.a[0].op != 'ref':
            return T('len', x.a[0])
        if x.op == 'map' and x.a[3] is TRUE:
            return T('len', x.a[0])
        fx = self.freeze(x)
        return T('len', self.versioned(fx))

    def b_range(self, *a):
        if all(is_c(x) for x in a):
            r = range(*[cv(x) for x in a])
            if len(r) <= 80:
                return T('list', *[C(i) for i in r])
        if len(a) == 2 and a[0] is C(0):
            a = a[1:]
        return T('range', *a)

    def tolist(self, x):
        its = self.known_items(x)
        return its

    def b_list(self, x=None):
        if x is None:
            return self.mklist([])
        its = self.known_items(x)
        if its is not None:
            return self.mklist(its)
        x = self.freeze(x)
        if x.op in ('listof', 'map', 'mapn'):
            return x
        if x.op == 'dictkeys':
            return T('listof', x.a[0])
        return T('listof', x)

    def b_tuple(self, x=None):
        if x is None:
            return tup([])
        its = self.known_items(x)
        if its is not None:
            return tup(its)
        x = self.freeze(x)
        if x.op == 'shape':
            return x
        return T('tupof', x.a[0] if x.op == 'listof' else x)

    def b_set(self, x=None):
        if x is None:
            return self.alloc('set', ())
        its = self.known_items(x)
        if its is not None:
            return self.alloc('set', tuple(dict.fromkeys(its)))
        fx = self.freeze(x)
        return T('setof', self.setnorm(fx))

    b_frozenset = b_set

    def b_vars(self, x=None):
        if x is None:
            raise Unsupported('vars()')
        return self.getattr_(x, '__dict__')

    def b_dict(self, x=None, **kw):
        if x is None:
            return self.alloc('dict', tuple((C(k), v) for k, v in kw.items()), False)
        d = self.known_dict(x)
        if d is not None:
            return self.alloc('dict', tuple(d) + tuple((C(k), v) for k, v in kw.items()), False)
        its = self.known_items(x) if x.op in ('ref', 'tup') else None
        if its is not None and all(y.op == 'tup' and len(y.a) == 2 and is_c(y.a[0]) for y in its):
            d = {}
            for y in its:
                d[y.a[0]] = y.a[1]
            d.update((C(k), v) for k, v in kw.items())
            return self.alloc('dict', tuple(d.items()), False)
        return T('copyof', self.freeze(x), 'copy')

    def b_sorted(self, x, **kw):
        its = self.known_items(x)
        if its is not None and all(is_c(y) for y in its) and not kw:
            try:
                return self.mklist([C(v) for v in sorted(cv(y) for y in its)])
            except TypeError:
                pass
        if its is not None and len(its) <= 1:
            return self.mklist(its)
        if its is not None and set(kw) <= set(('key', 'reverse')) and is_c(kw.get('reverse', FALSE)) and not any(y.op == 'star' for y in its):
            keys = [self.call(kw['key'], [y], {}) for y in its] if kw.get('key', NONE) is not NONE else list(its)
            if all(is_c(k) for k in keys):
                try:
                    o = sorted(range(len(its)), key=lambda n: cv(keys[n]), reverse=bool(cv(kw.get('reverse', FALSE))))
                    return self.mklist([its[n] for n in o])
                except TypeError:
                    pass
        return T('sorted', self.freeze(x))

    def b_reversed(self, x):
        its = self.known_items(x)
        if its is not None:
            return self.mklist(list(reversed(its)))
        return T('reversed', self.freeze(x))

    def b_enumerate(self, x, *r):
        its = self.known_items(x)
        if its is not None and not r:
            return T('list', *[tup([C(i), v]) for i, v in enumerate(its)])
        return T('enumerate', self.freeze(x), *r)

    def b_zip(self, *xs):
        its = [self.known_items(x) for x in xs]
        if all(i is not None for i in its):
            return T('list', *[tup(z) for z in zip(*its)])
        return T('zip', *[self.freeze(x) for x in xs])

    def b_map(self, f, x):
        its = self.known_items(x)
        if its is not None:
            return self.mklist([self.call(f, [y], {}) for y in its])
        fit = self.freeze(x)
        self.loopdepth += 1
        el = self.elem_of(fit)
        b = self.freeze(self.call(f, [el], {}))
        self.loopdepth -= 1
        return T('map', fit, el, b, TRUE)

    def b_iter(self, x):
        if is_c(x) and not isinstance(cv(x), (str, tuple)):
            raise Rai(T('exc', 'TypeError', 'not iterable'), self.loc)
        return T('iterof', self.freeze(x))

    def b_next(self, x, *d):
        return T('nextof', self.freeze(x), *[self.freeze(y) for y in d])

    def b_slice(self, *a):
        a = [self.freeze(x) for x in a]
        if len(a) == 1:
            a = [NONE, a[0]]
        return T('slice', *(a + [NONE] * (3 - len(a))))

    def b_any(self, x):
        its = self.known_items(x)
        if its is not None:
            return C(any([self.truth(y) for y in its])) if all(is_c(y) for y in its) else self.fold_truth(its, True)
        return T('atom', T('any', self.freeze(x)))

    def b_all(self, x):
        its = self.known_items(x)
        if its is not None:
            return self.fold_truth(its, False)
        return T('atom', T('all', self.freeze(x)))

    def fold_truth(self, its, want):
        for y in its:
            if self.truth(y) == want:
                return C(want)
        return C(not want)

    def b_isinstance(self, x, c):
        its = self.known_items(c)
        cs = its if its is not None else [c]
        for k in cs:
            v = self.isinst1(x, k)
            if v is None:
                if self.decide(T('isinstance', self.freeze(x), k)):
                    return TRUE
            elif v:
                return TRUE
        return FALSE

    def isinst1(self, x, k):
        kn = k.a[0].split('.')[-1] if k.op in ('ext', 'cls') else None
        if x.op == 'c':
            v = cv(x)
            return {'int': isinstance(v, int), 'str': isinstance(v, str), 'float': isinstance(v, float), 'Number': isinstance(v, (int, float)),
                    'tuple': isinstance(v, tuple), 'bool': isinstance(v, bool)}.get(kn, False)
        if k.op == 'cls' and self.is_ch_class(k):
            cl = self.cls_of(x)
            if cl is not None and cl.op == 'cls':
                if self.is_subclass(cl, k):
                    return True
                opened = x.op == 'inst' and len(x.a) > 2 and x.a[2] == 'open'
                if not opened:
                    return False
            if k is T('cls', self.pkg + '.ch.Ch') and self.is_node(x):
                return True
            if x.op in ('val', 'np', 'sp', 'tup', 'list', 'bin', 'ref', 'fn'):
                return False
            return None
        if kn == 'ndarray':
            if self.is_node(x) or x.op in ('sp', 'tup', 'list', 'ref', 'fn', 'cls', 'linop', 'spm'):
                return False
            if x.op == 'val':
                return True
            if self.arraylike(x):
                return True
            return None
        if kn in ('list', 'tuple', 'dict', 'set', 'str'):
            sk = self.seqkind(x)
            if x.op == 'ref':
                return self.st.heap[x.a[0]][0] == kn
            if sk:
                return {'tup': 'tuple', 'list': 'list'}[sk] == kn
            if x.op in ('map', 'listof'):
                return kn == 'list'
            if x.op in ('val', 'np', 'sp', 'inst', 'new', 'fn', 'cls', 'bin', 'shape'):
                return kn == 'tuple' and x.op == 'shape'
            if x.op == 'fmt':
                return kn == 'str'
            return None
        if kn == 'Number':
            if x.op in ('val', 'sp', 'tup', 'list', 'linop') or (x.op == 'np' and self.arraylike(x)):
                return False
            if x.op in ('size', 'len', 'ndim'):
                return True
            return None
        if kn == 'LinearOperator':
            if x.op == 'linop':
                return True
            if x.op in ('val', 'np', 'sp', 'c', 'bin'):
                return False
            return None
        if kn == 'property':
            return x.op == 'prop'
        if k.op == 'cls':
            # a class of the package that is no operation
            if x.op == 'ref':
                h = self.st.heap[x.a[0]]
                return h[0] == 'obj' and self.is_subclass(h[1], k)
            if x.op in ('fn', 'prop', 'cm', 'sm', 'cls', 'ext', 'mod', 'tup', 'list', 'dict', 'set', 'val', 'np', 'sp', 'wraps', 'bm'):
                return False
            if self.is_node(x):
                return False
        return None

    def b_issubclass(self, c, d):
        if c.op == 'cls' and d.op == 'cls':
            return C(self.is_subclass(c, d))
        if c.op == 'typeof':
            return self.b_isinstance(c.a[0], d)
        return T('atom', T('issubclass', c, d))

    def b_hasattr(self, o, n):
        return self.hasattr_(o, n)

    def b_getattr(self, o, n, *d):
        if is_c(n):
            if d:
                h = self.hasattr_(o, n)
                if h is FALSE or (h.op == 'atom' and not self.truth(h)):
                    return d[0]
            return self.getattr_(o, cv(n))
        ov = self.st.attrs.get((o, n))
        if ov is not None and ov is not DELETED:
            return ov
        self.eff('read', o, n)
        return T('attr', o, n)

    def b_setattr(self, o, n, v):
        self.setattr_(o, cv(n) if is_c(n) else n, v)
        return NONE

    def b_delattr(self, o, n):
        nm = cv(n) if is_c(n) else n
        self.eff('delattr', o, nm)
        self.st.attrs[(o, nm)] = DELETED
        return NONE

    def b_type(self, x, *r):
        c = self.cls_of(x)
        if c is not None and not (x.op == 'inst' and len(x.a) > 2 and x.a[2] == 'open'):
            return c
        if x.op == 'fn':
            return T('ext', 'types.FunctionType')
        return T('typeof', self.freeze(x))

    def b_id(self, x):
        return T('id', self.freeze(x))

    def b_super(self, c=None, o=None):
        return T('super', c, o)

    def b_property(self, fget=NONE, fset=NONE, *r):
        return T('prop', fget, fset)

    def b_classmethod(self, f):
        return T('cm', f)

    def b_staticmethod(self, f):
        return T('sm', f)

    def b_callable(self, x):
        if x.op in ('fn', 'bm', 'cls', 'ext'):
            return TRUE
        if x.op == 'c':
            return FALSE
        return T('atom', T('callable', x))

    def b_str(self, x=None):
        if x is not None and is_c(x):
            return C(str(cv(x)))
        return T('fmt', self.freeze(x)) if x is not None else C('')

    b_repr = b_str

    def b_float(self, x):
        if is_c(x) and isinstance(cv(x), (int, float)):
            return C(float(cv(x)))
        return T('float', self.freeze(x))

    def b_int(self, x):
        if is_c(x) and isinstance(cv(x), (int, float)):
            return C(int(cv(x)))
        return T('int', self.freeze(x))

    def b_bool(self, x):
        return C(self.truth(x))

    def b_abs(self, x):
        if is_c(x):
            return C(abs(cv(x)))
        if self.is_node(x):
            return self.callmethod(x, '__abs__', [], {})
        return T('np', 'absolute', (('x', self.freeze(x)),))

    def b_min(self, *a, **k):
        return self.minmax('min', a)

    def b_max(self, *a, **k):
        return self.minmax('max', a)

    def minmax(self, nm, a):
        if len(a) == 1:
            its = self.known_items(a[0])
            if its is None:
                return T('builtin', nm, (self.freeze(a[0]),))
            a = its
        if all(is_c(x) for x in a):
            return C((min if nm == 'min' else max)(cv(x) for x in a))
        return T('builtin', nm, tuple(self.freeze(x) for x in a))

    def b_sum(self, x, *r):
        its = self.known_items(x)
        if its is not None:
            acc = r[0] if r else C(0)
            for y in its:
                acc = self.binop('Add', acc, y)
            return acc
        return T('builtin', 'sum', (self.freeze(x),) + tuple(r))

    def b_globals(self):
        return T('modvars', self.mod)

    def b_locals(self):
        return T('modvars', self.mod) if self.loading and self.st.frames[self.cur][1] is None else T('sym', 'locals()')

    # ------------------------------------------------------------------ entry
    def run(self, fterm, args, kwargs=None, facts=None, attrs=None, prim=(), inline_props=(), selfterm=None, pre=None):
        """Paths of calling fterm with symbolic arguments."""
        self.prim = set(prim)
        self.inline_props = set(inline_props)
        self.selfterm = selfterm
        self.steps = 0
        st = self.base.clone()
        st.eff = []
        st.facts = dict(facts or {})
        st.attrs.update(attrs or {})
        self.cur = None
        self.loopdepth = 0
        self.st = st
        self._owner_stack = [None]
        for fid in [None]:
            pass
        self.cur = self.newframe({}, None, self.pkg)
        self.mod = self.pkg
        self.stack = []
        if pre:
            pre(self)

        def thunk():
            raise Ret(self.call(fterm, list(args), dict(kwargs or {})))
        try:
            return self.explore(thunk, st)
        finally:
            self.st = self.base

    def method(self, cls, name):
        r = self.class_lookup(cls, name)
        return r[0] if r else None


def mkis(a, b):
    if b.uid < a.uid:
        a, b = b, a
    return T('is', a, b)


def mkeq(a, b):
    if b.uid < a.uid:
        a, b = b, a
    return T('eq', a, b)
