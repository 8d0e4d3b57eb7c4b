"""Evidence files: what a run covered, measured on that run."""
import json, os, sys

TRUSTED = ['clang 18 (parsing the real sources)', 'R 4 parser (parse trees of the real R sources)',
           'vcg (this repository: symbolic executor, loop summaries, term rewriting)', 'cvc5 1.1.2 / z3 4.8.12']


def write(root, prop, tier, seed, ded, ded_note, res, known, violations, wall):
    bounded = {'evaluations': res.cases, 'distinct_nontrivial': res.cases - res.skipped, 'checks': res.checks, 'skipped': res.skipped, 'driver_runs': res.runs,
               'cases_by_group': res.groups,
               'rule': 'bounded stand-in, never counted as proved: structured and random inputs run through the real code and compared '
                       'with an independent statement of the property; a case is non-trivial when the real code could be evaluated on it',
               'samples': res.samples[:6]}
    cov = dict(bounded=bounded)
    assumptions = list(res.notes)
    level = 'other'
    if ded and ded['obligations']:
        sys.path.insert(0, root + '/tools')
        from levels import LEVELS
        level = LEVELS[prop][0]
        obs = ded['obligations']
        cov.update(obligations=len(obs), discharged=sum(o['status'] == 'proved' for o in obs),
                   checker_cmd='python3 check.py ' + prop, trusted_base=TRUSTED + ded.get('trusted', []),
                   functions_under_contract=ded.get('functions', []), by_backend=ded.get('by_backend', {}), solver_seconds=ded.get('solver_s', 0),
                   undischarged=[{'name': o['name'], 'status': o['status'], 'why': o.get('why', '')[:300]} for o in obs if o['status'] != 'proved'],
                   functions_verified_by_other_properties=ded.get('verified_by_other_properties', []), functions_inlined=ded.get('executed', []), functions_bounded_only=ded.get('bounded_only', []), obligation_names=[o['name'] for o in obs])
        assumptions += ded.get('assumptions', [])
        if ded.get('notes'):
            cov['notes'] = ded['notes']
    if ded_note:
        cov['deductive_note'] = ded_note
    cov['explanation'] = ('Deductive obligations generated from the current sources (%s), plus the bounded conformance run of the real code: '
                          '%d cases, %d comparisons.' % ('%d of %d discharged' % (cov.get('discharged', 0), cov.get('obligations', 0)) if 'obligations' in cov else 'none yet for this property',
                                                         res.cases, res.checks))
    if known:
        cov['known_findings_seen'] = known
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(wall, 1), violations=len(violations))
    os.makedirs(root + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (root, prop), 'w') as f:
        json.dump(ev, f, indent=1)
