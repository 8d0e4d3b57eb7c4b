"""Write MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
from levels import LEVELS, NOT_APPLICABLE
checks = []
for pid in sorted(LEVELS):
    lv, note = LEVELS[pid]
    checks.append(dict(property=pid, quick_cmd='python3 check.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + pid,
                       evidence_file='evidence/%s.json' % pid,
                       technique='contract-based deductive verification of the real code, with executable twins of the contracts as bounded stand-ins',
                       level=lv, level_note=note))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes='See DESIGN.md. Known findings: known/findings.txt.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
