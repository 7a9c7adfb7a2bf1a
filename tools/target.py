#!/usr/bin/env python3
"""target.py RULE [scheme/variant ..]: one rule of the C analysis on some of the implementations"""
import os
import sys
import time
os.environ.setdefault('VERIF_DEBUG', '1')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'analysis'))
import rules_dil as rd
import rules_samp as rs
if sys.argv[1] == 'p32':
    # the shared SHAKE code, a part of the positions
    import rules_sponge as rp
    for j in [(k, a, 'common', 0, n) for a in rp.RATES for k, n in (('misc', 1), ('absorb', 12), ('squeeze', 12))]:
        rep, box = rp.worker(j)
        print('==', j, len(rep.ob), sum(1 for _, ok in rep.ob if not ok), box)
        for x in rep.viol:
            print('  V', x[0], x[2][:300])
        for x in rep.und[:8]:
            print('  U', x[:300])
    sys.exit()
rule = getattr(rs if sys.argv[1] == 'p30' else rd, sys.argv[1])
jobs = [tuple(x.split('/')) for x in sys.argv[2:]] or rd.FAMILY
for s, v in jobs:
    t = time.time()
    rep, box = rd.worker((rule, s, v))
    print('==', s, v, '%.1fs' % (time.time() - t), len(rep.ob), sum(1 for _, ok in rep.ob if not ok), box)
    for x in rep.viol:
        print('  V', x[0], x[2][:300])
    for x in rep.und[:8]:
        print('  U', x[:300])
