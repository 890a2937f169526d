"""Hash-consed value-number terms: the value domain of the analysis."""

_tab = {}


class Term(object):
    __slots__ = ('op', 'a', 'uid', '_str')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def T(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.uid = len(_tab)
        t._str = None
        _tab[key] = t
    return t


def C(v):
    """Constant."""
    return T('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_c(t):
    return t.op == 'c'


def cv(t):
    return t.a[1]


def tup(items):
    return T('tup', *items)


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if t._str is not None:
        return t._str
    s = _show(t, depth)
    if len(s) > 400:
        s = s[:400] + '...'
    t._str = s
    return s


_OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Pow': '**', 'FloorDiv': '//', 'Mod': '%',
        'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'MatMult': '@', 'LShift': '<<', 'RShift': '>>'}


def _show(t, d):
    op, a = t.op, t.a
    if op == 'c':
        return repr(a[1])
    if op in ('ext', 'mod', 'sym'):
        return str(a[0])
    if op == 'cls':
        return a[0].split('.')[-1]
    if op == 'fn':
        return '<fn%d>' % a[0]
    if op == 'inst':
        return a[1]
    if op == 'attr':
        return '%s.%s%s' % (show(a[0], d + 1), a[1], ("'%s" % a[2]) if len(a) > 2 else '')
    if op == 'item':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if op == 'val':
        return show(a[0], d + 1) + '.r' + (("'%s" % a[1]) if len(a) > 1 and a[1] else '')
    if op == 'bin':
        return '(%s %s %s)' % (show(a[1], d + 1), _OPS.get(a[0], a[0]), show(a[2], d + 1))
    if op in ('tup', 'list', 'set'):
        br = {'tup': '()', 'list': '[]', 'set': '{}'}[op]
        return br[0] + ', '.join(show(x, d + 1) for x in a) + br[1]
    if op == 'np':
        return '%s(%s)' % (a[0], ', '.join(
            (show(v, d + 1) if i == 0 else '%s=%s' % (n, show(v, d + 1))) for i, (n, v) in enumerate(a[1])))
    if op == 'new':
        return '%s<%s>' % (show(a[0], d + 1), ', '.join('%s=%s' % (n, show(v, d + 1)) for n, v in a[1]))
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) for x in a))


def subterms(t, seen=None):
    """All terms inside t (t included), each once."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, (tuple, list, frozenset)):
            stack.extend(x)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f, memo=None):
    """Bottom-up rewriting: f(term with rewritten children) -> term."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, Term):
            r = memo.get(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                y = x if na == x.a else T(x.op, *na)
                r = f(y)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def subst(t, m):
    """Replace whole subterms by mapping m (top-down, first match wins)."""
    memo = {}

    def go(x):
        if isinstance(x, Term):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                r = x if na == x.a else T(x.op, *na)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)
