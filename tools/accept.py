"""Record which source text each proof was accepted on (known/accepted.json).

The check never needs this to accept anything.  It only tells 'the verifier ran out of time on source whose proof it
accepted before' from 'the obligations of changed source cannot be proved'.  usage: accept.py C01 C02 ... (default: all)"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/vcg')
from vcg import deduce
acc = deduce.accepted()
for p in sys.argv[1:] or ['C%02d' % i for i in range(1, 18)]:
    r = deduce.run(p, 'thorough')
    by = {}
    for o in r['obligations']:
        by.setdefault((o['proof'], o['digest']), []).append(o['status'] == 'proved')
    for (n, d), ok in by.items():
        if p == 'C17' and n in acc:
            continue
        if all(ok):
            acc[n] = d
        else:
            acc.pop(n, None)
            print('not accepted:', n)
    print(p, len(by), 'proofs', sum(map(len, by.values())), 'obligations', sum(map(sum, by.values())), 'proved', flush=True)
json.dump(acc, open(deduce.ACCEPTED, 'w'), indent=0, sort_keys=True)
