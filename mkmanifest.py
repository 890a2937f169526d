"""Writes MANIFEST.json from the rule modules present."""
import json, os
TECH = {
 'C01': 'typestate and must-pass-through analysis of change propagation over path-sensitive summaries',
 'C02': 'memo-key dependence analysis (value dependences vs. key, guards and invalidation)',
 'C03': 'abstract-heap (shape) analysis of parent registration on every store of an input',
 'C04': 'contribution accounting over path summaries of the three differentiation drivers',
 'C05': 'symbolic-shape index calculus: derivative of the value term compared with the Jacobian term',
 'C06': 'path-sensitive reachability of a missing/invented derivative per input',
 'C07': 'symbolic shape inference of every reported Jacobian',
 'C08': 'parametricity and symbolic-shape index calculus of reordering maps',
 'C09': 'value-number comparison of operators and numpy-named functions with the numpy operation of that name',
 'C10': 'mutation (effect/alias) analysis and typestate of the value read',
 'C11': 'escape/alias analysis of __getstate__/__setstate__',
 'C12': 'typestate analysis of the dogleg loop',
 'C13': 'ranking/guard analysis of the dogleg loop with NaN-aware comparisons',
 'C14': 'dataflow analysis of the scipy callbacks',
 'C15': 'effect analysis of writes to shared (class, module, default-argument) state',
 'C16': 'scope resolution, path walks and argument dataflow',
 'C17': 'typestate and dependence analysis of dependent properties',
 'C18': 'must-pass-through analysis of hook delivery',
 'C19': 'matrix-calculus normal forms of extracted derivative terms',
 'C20': 'symbolic-shape index calculus of reductions, products and stacking',
 'C21': 'class-identity lint over the resolved program and summaries of declaration set-up',
 'C22': 'dependence analysis of the semantic id and effect analysis of substitution',
}
NA = {
 'C23': 'The SVD derivative is computed through numerical factorisations and a linear solve whose correctness depends on runtime spectra; '
        'no static argument in reach relates those results to the true derivative.',
 'C24': 'Convergence is a statement about iterates of a numerical method on arbitrary objectives; nothing in the shape of the code bounds it.',
}
EVERY = ['C%02d' % i for i in range(1, 25)]


def main():
    checks = []
    na = []
    for p in EVERY:
        f = '/verif/sa/rules/%s.py' % p.lower()
        if os.path.exists(f):
            import importlib
            m = importlib.import_module('sa.rules.' + p.lower())
            checks.append({'property': p, 'quick_cmd': 'python3 -m sa.run ' + p,
                           'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.run ' + p,
                           'technique': 'static analysis: ' + TECH[p], 'level': 'other',
                           'level_note': getattr(m, 'NOTE', m.EXPLAIN)})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sa.interp"', 'checks': checks, 'not_applicable': na,
               'notes': 'All checks read /repo source only; nothing of /repo is imported or executed.'},
              open('/verif/MANIFEST.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
