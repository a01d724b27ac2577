import argparse, json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--out')
    ap.add_argument('--case', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    import cases
    if a.replay:
        v = json.load(open(a.replay))
        if 'data' not in v:
            print('no concrete input in this replay file:', v.get('what'))
            return 2
        c = [c for c in cases.CASES[a.prop] if c.name == v['case']][0]
        msg = lib.guarded(c.check, v['data'], c.seconds)
        print('REPLAY', 'holds' if msg is None else 'fails: ' + msg)
        return 0 if msg is None else 1
    res = lib.run(a.prop, a.tier, a.seed, a.budget, a.case, a.jobs)
    for r in res:
        if r['violations']:
            c = [c for c in cases.CASES[a.prop] if c.name == r['case']][0]
            r['violations'][0] = lib.shrink(c, r['violations'][0])
    if a.out:
        json.dump(res, open(a.out, 'w'), default=str)
    else:
        for r in res:
            print(r['case'], r['evaluations'], r['distinct_nontrivial'], 'cut' if r['cut'] else '', [(v['what'], v['data']) for v in r['violations'][:2]])
    return 0


sys.exit(main())
