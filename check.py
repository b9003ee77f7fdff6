#!/usr/bin/env python3
"""check.py ID [--thorough]   decide one property on /repo's current sources (static analysis only)"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tool'))


def main():
    import propdefs
    pid = sys.argv[1]
    if pid == '--selftest':
        import frontend
        for t in ('clang', 'llvm-link', 'llvm-dis', 'opt'):
            frontend.tool(t)
        print('tools present')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    P = {p['id']: p for p in propdefs.PROPS}
    if pid not in P or P[pid].get('na'):
        print('unknown property', pid)
        return 2
    p = P[pid]
    t0 = time.time()
    import runner
    import rules
    rules.RuleEngine.thorough = tier == 'thorough'
    R = runner.run_all()
    viol = [e for e in R.events if propdefs.selects(p, e)]
    cov, broken = propdefs.coverage(p, R)
    # known findings are identified by property, function, kind and object, never by line
    known = []
    for ln in open(os.path.join(HERE, 'known-findings.txt')):
        ln = ln.strip()
        if ln.startswith('known: property=%s ' % pid):
            known.append(dict(x.split('=', 1) for x in ln[7:].split(' | ')))
    fresh = []
    for e in viol:
        for k in known:
            if k.get('func') == runner.frontend.basename(e['func']) and k.get('kind') == e['kind'] and \
                    k.get('what', '') in e['msg']:
                print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['func'], e['msg']))
                break
        else:
            fresh.append(e)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=p.get('level', 'other'),
              coverage=cov, assumptions=propdefs.ASSUMPTIONS + p.get('assumes', []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(HERE, 'evidence', pid + '.replay.txt')
    if fresh:
        with open(rp, 'w') as f:
            for e in fresh:
                f.write(show(e) + '\n')
        for e in fresh:
            print(show(e))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    if broken:
        print('analysis broken: ' + broken)
        return 2
    print('%s: held on %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0


def show(e):
    loc = ' < '.join('%s:%s (%s)' % tuple(l[:3]) for l in (e.get('loc') or [])[:4])
    s = '[%s] %s: %s\n    in function %s' % (e['kind'], loc or '?', e['msg'], e['func'])
    if e.get('lost'):
        s += '\n    at exit/edge %s:%s' % tuple(e['lost'][0][:2])
    if e.get('trace'):
        s += '\n    path (line:branch taken): ' + ' '.join(e['trace'][-30:])
    return s


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as x:
        import traceback
        traceback.print_exc()
        print('check error: %s' % x)
        sys.exit(2)
