#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]: decide one property on /repo's current source."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
sys.path.insert(0, HERE)
sys.setrecursionlimit(50000)


def main():
    import registry
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    t0 = time.time()
    r = registry.RULES[pid]
    from world import World, Report, BuildFailed
    R = Report()
    try:
        W = registry.world(r, tier)
        r['fn'](W, R)
    except BuildFailed as e:
        print('cannot analyse: /repo does not build\n' + str(e)[-3000:])
        return 2
    except Exception as e:
        # code of a shape the analysis was not built for: what it did not reach is not decided
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        traceback.print_exc()
        R.undecided.append('the analysis stopped: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    known = registry.known_findings(pid)
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    bad = []
    for v in R.violations:
        if v.key in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[v.key]))
            continue
        bad.append(v)
    if any(v.unknown for v in bad):
        # a standard-library function without a model was met on the way: what follows from its result is not known, so nothing is claimed either way
        for v in bad:
            if v.unknown:
                R.undecided.append('%s: %s (not decided: no model of %s)' % (v.key, v.msg, ', '.join(v.unknown)))
        bad = [v for v in bad if not v.unknown]
    nob = len(R.obligations)
    dis = sum(1 for _, ok in R.obligations if ok)
    if nob == 0 and not bad:
        from world import Violation
        bad.append(Violation('nothing', '/repo', 'nothing was left to analyse: the constructs this property is about were not found'))
    for i, v in enumerate(bad):
        p = os.path.join(EVIDENCE, 'replay', '%s-%d.json' % (pid, i))
        json.dump({'property': pid, 'rule': r['rule'], 'construct': v.where, 'key': v.key, 'message': v.msg, 'detail': v.detail,
                   'replay': 'python3 /verif/analysis/check.py %s' % pid}, open(p, 'w'), indent=1)
        print('%s: %s\n    at %s' % (v.key, v.msg, v.where))
        for d in v.detail:
            if d:
                print('    | ' + d)
        print('VIOLATION property=%s replay=%s' % (pid, p))
    kinds = {}
    for d, ok in R.obligations:
        k = d.split(': ', 1)[-1]
        kinds[k] = kinds.get(k, 0) + 1
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': r['level'],
          'coverage': dict({'obligations': nob, 'discharged': dis, 'functions_analysed': sorted(R.functions)[:400], 'abstract_states': R.nodes,
                            'obligation_kinds': kinds, 'undecided': R.undecided[:50], 'rule': r['rule'],
                            'checker_cmd': 'python3 /verif/analysis/check.py %s' % pid,
                            'trusted_base': r.get('trusted', registry.TRUSTED),
                            'explanation': r['rule']}, **R.info),
          'assumptions': r.get('assumptions', registry.ASSUMPTIONS), 'violations': [v.key for v in bad], 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(EVIDENCE, pid + '.json'), 'w'), indent=1)
    if bad:
        return 1
    print('%s: held: %d obligations over %d functions, %d abstract states%s (%.1f s)' % (pid, nob, len(R.functions), R.nodes, ', %d undecided' % len(R.undecided) if R.undecided else '', time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
