"""Shared context of the rules, and the report each rule fills."""
import ast
import json
import os
import time
from .interp import Interp, Unsupported, Budget, mkis, mkeq, walk_own
from .terms import T, C, NONE, TRUE, FALSE, is_c, cv, tup, show, subterms

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Broken(Exception):
    """The analysis cannot run at all (an anchor vanished)."""


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.items = []           # (status, rule, construct, loc, msg)
        self.assume = []
        self.stats = {}

    def ok(self, rule, construct, loc=None, msg=''):
        self.items.append(('proved', rule, construct, loc, msg))

    def und(self, rule, construct, loc=None, msg=''):
        self.items.append(('undecided', rule, construct, loc, msg))

    def bad(self, rule, construct, loc, msg):
        for x in self.items:
            if x[0] == 'violation' and x[1] == rule and x[2] == construct:
                return
        self.items.append(('violation', rule, construct, loc, msg))

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n


class Ctx(object):
    def __init__(self, repo='/repo', probe=None):
        self.repo = repo
        self.I = Interp(repo, probe=probe)
        if len(self.I.chclasses) < 10:
            raise Broken('only %d operation classes found' % len(self.I.chclasses))
        self._runs = {}

    # -- names
    def short(self, cls):
        return cls.a[0][len(self.I.pkg) + 1:]

    def qual(self, f):
        return self.I.fns[f.a[0]].qual

    def fnloc(self, f):
        i = self.I.fns[f.a[0]]
        m = self.I.mods.get(i.mod)
        return (os.path.relpath(m.path, self.repo) if m else i.mod, i.node.lineno, i.qual)

    def module_functions(self):
        """(qualified name, fn term) of every function and method defined in the analysed modules."""
        for k, i in enumerate(self.I.fns[:self.I.nload]):
            yield i.qual, T('fn', k), i

    def lib_fn(self, i):
        """A function of the library proper (not of its tests or developer tools)."""
        base = i.mod.split('.')[-1]
        return not (base.startswith('test_') or base.startswith('optional_test') or base in ('testing', 'monitor', 'api_compatibility', '_probe'))

    def lib_class(self, cls):
        mod = self.short(cls).split('.')[0]
        return not (mod.startswith('test_') or mod.startswith('optional_test') or mod == '_probe')

    def inst(self, cls, kind=None):
        return T('inst', cls, 'self') if kind is None else T('inst', cls, 'self', kind)

    def run(self, f, args, **kw):
        """Paths, or None with a note when the analysis gives up."""
        key = None
        try:
            return self.I.run(f, args, **kw)
        except (Unsupported, Budget, RecursionError) as e:
            self.note = '%s: %s' % (type(e).__name__, e)
            return None

    def method(self, cls, name):
        m = self.I.method(cls, name)
        return m if m is not None and m.op == 'fn' else None

    def own(self, cls, name):
        """The method if it is not the one inherited from Ch."""
        m = self.method(cls, name)
        if m is None or m is self.method(self.I.ch, name):
            return None
        return m

    def iattrs(self, cls, inputs):
        """Instance-level declaration of the inputs (classes whose instances name their own inputs)."""
        return {(self.inst(cls), 'dterms'): tup([C(x) for x in inputs])} if inputs else None

    def r_paths(self, cls, inputs=()):
        k = ('r', cls, inputs)
        if k not in self._runs:
            s = self.inst(cls)
            self._runs[k] = self.run(self.method(cls, 'compute_r'), [s], selfterm=s, prim=('dr_wrt',), attrs=self.iattrs(cls, inputs))
        return self._runs[k]

    def oc_paths(self, cls, inputs=()):
        k = ('oc', cls, inputs)
        if k not in self._runs:
            s = self.inst(cls)
            self._runs[k] = self.run(self.method(cls, 'on_changed'), [s, T('sym', 'which')], selfterm=s, prim=('dr_wrt',),
                                     attrs=self.iattrs(cls, inputs))
        return self._runs[k]

    def dr_paths(self, cls, d, same=(), inputs=()):
        """compute_dr_wrt(input d), d distinct from all other inputs except those in `same`."""
        k = ('dr', cls, d, same, inputs)
        if k not in self._runs:
            s = self.inst(cls)
            w = T('attr', s, d)
            facts = {}
            for d2 in inputs or self.I.dterms(cls):
                if d2 != d:
                    facts[mkis(w, T('attr', s, d2))] = d2 in same
            facts[mkis(w, s)] = False
            self._runs[k] = self.run(self.method(cls, 'compute_dr_wrt'), [s, w], selfterm=s, facts=facts, attrs=self.iattrs(cls, inputs))
        return self._runs[k]

    def other_paths(self, cls, inputs=()):
        """compute_dr_wrt(an object that is none of the inputs and not the node itself)."""
        k = ('odr', cls, inputs)
        if k not in self._runs:
            s = self.inst(cls)
            w = T('inst', self.I.ch, 'other', 'open')
            facts = {mkis(w, s): False}
            for d2 in inputs or self.I.dterms(cls):
                facts[mkis(w, T('attr', s, d2))] = False
                facts[mkeq(w, T('attr', s, d2))] = False
            self._runs[k] = self.run(self.method(cls, 'compute_dr_wrt'), [s, w], selfterm=s, facts=facts, attrs=self.iattrs(cls, inputs))
        return self._runs[k]

    def abstract(self, cls):
        """A class that is only a base: its compute_r always raises, calls a hook that no class in its MRO defines, or is a
        plain container base."""
        ps = self.r_paths(cls)
        if ps is None:
            return False
        live = [p for p in ps if p.outcome != 'raise']
        if not live:
            return True
        subs = [c for c in self.I.chclasses if c is not cls and self.I.is_subclass(c, cls)]
        if not subs:
            return False
        s = self.inst(cls)
        for p in live:
            for e in p.eff:
                if e.kind == 'vcall' and e.a[0] is s and self.I.class_lookup(cls, e.a[1]) is None:
                    return True
        return False


# ---------------------------------------------------------------- output
def load_known():
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def finish(rep, tier, seed, t0, level, explanation):
    known = [k for k in load_known() if k['property'] == rep.prop]
    viol = []
    out = []
    for st, rule, cons, loc, msg in rep.items:
        if st != 'violation':
            continue
        hit = [k for k in known if k['rule'] == rule and k['construct'] == cons]
        if hit:
            out.append('KNOWN-FINDING: property=%s %s' % (rep.prop, hit[0]['what']))
        else:
            viol.append((rule, cons, loc, msg))
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    if not os.path.isdir(ev):
        os.makedirs(ev)
    n = {}
    rules = {}
    for st, rule, cons, loc, msg in rep.items:
        n[st] = n.get(st, 0) + 1
        rules.setdefault(rule, {'proved': 0, 'undecided': 0, 'violation': 0})[st] += 1
    cov = {'explanation': explanation,
           'obligations': len(rep.items),
           'discharged': n.get('proved', 0),
           'undecided': [{'rule': r, 'construct': c, 'why': m} for st, r, c, l, m in rep.items if st == 'undecided'],
           'per_rule': rules,
           'samples': [{'rule': r, 'construct': c, 'at': '%s:%s' % (l[0], l[1]) if l else None, 'reason': m}
                       for st, r, c, l, m in rep.items if st == 'proved'][:12]}
    cov.update(rep.stats)
    doc = {'property': rep.prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': rep.assume, 'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    vp = os.path.join(ev, rep.prop + '.violations.json')
    if viol:
        with open(vp, 'w') as f:
            json.dump([{'rule': r, 'construct': c, 'file': l[0] if l else None, 'line': l[1] if l else None,
                        'function': l[2] if l and len(l) > 2 else None, 'why': m} for r, c, l, m in viol], f, indent=1)
    elif os.path.exists(vp):
        os.remove(vp)
    with open(os.path.join(ev, rep.prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    for line in dict.fromkeys(out):
        print(line)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d known findings' % (
        rep.prop, len(rep.items), n.get('proved', 0), n.get('undecided', 0), len(viol), len(out)))
    for r, c, l, m in viol:
        print('  %s:%s in %s: [%s] %s: %s' % ((l or ('?', 0))[0], (l or ('?', 0))[1], (l[2] if l and len(l) > 2 else ''), r, c, m))
    if viol:
        print('VIOLATION property=%s replay=%s' % (rep.prop, vp))
        return 1
    return 0
