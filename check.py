#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--case NAME] [-v]

Symbolic execution of /repo's current source with the harness of one property.
"""
import os, sys, time, json, argparse, importlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    sys.path.insert(0, HERE)
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
    os.chdir(REPO)
    import warnings
    warnings.simplefilter('ignore')
    from engine import instr, explore, models, loadreal
    module = args.property.lower()
    worker = explore.Worker(module, HERE, REPO)
    if not worker.ready:
        print('harness does not load against the real code:\n' + str(worker.error))
        write_evidence(args, seed, None, [], time.time() - t0, error=str(worker.error))
        sys.exit(2)
    loadreal.load(REPO, HERE)
    mod = importlib.import_module('harness.' + module)
    known = load_known(args.property)
    cases = [c for c in mod.CASES if not args.case or c['name'] == args.case]
    if args.tier == 'quick':
        cases = [c for c in cases if not c.get('thorough_only') or args.case]
    budget = args.seconds or (240 if args.tier == 'quick' else 780)
    results = []
    bad = None
    for i, c in enumerate(cases):
        left = budget - (time.time() - t0)
        share = c.get('seconds', {}).get(args.tier) or (45 if args.tier == 'quick' else 240)
        secs = max(5.0, min(share, left - 3 * (len(cases) - i - 1)))
        r = explore.explore(module, c, args.tier, seed, secs, args.jobs, worker, known, print)
        results.append(r)
        report(r, args.v)
        if r['violations']:
            bad = r
            break
    worker.close()
    wall = time.time() - t0
    viol = []
    if bad:
        v = bad['violations'][0]
        path = os.path.join(HERE, 'evidence', 'replay-%s.json' % args.property)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(dict(property=args.property, module=module, case=bad['case'], tier=args.tier,
                           label=v['label'], inputs=v['inputs'], choices=v['choices'], how=v['how']),
                      f, indent=1)
        viol = [dict(case=bad['case'], label=v['label'], replay=path, how=v['how'])]
        print('counterexample: case %s, check "%s" (%s)' % (bad['case'], v['label'], v['how']))
        for n, x in v['choices'] + v['inputs']:
            print('   %s = %r' % (n, x))
    seen = set()
    for r in results:
        for k in r['known']:
            if k['id'] not in seen:
                seen.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (args.property, k['what']))
    write_evidence(args, seed, mod, results, wall, viol)
    if viol:
        print('VIOLATION property=%s replay=%s' % (args.property, viol[0]['replay']))
        sys.exit(1)
    inc = [r for r in results if not r['exhausted']]
    if inc:
        print('held on everything explored; not exhausted within the bounds: %s' %
              ', '.join(r['case'] for r in inc))
    else:
        print('property %s holds for every value within the bounds (%d paths, %d queries)' % (
            args.property, sum(r['paths'] for r in results),
            sum(r['seg'].get('queries', 0) for r in results)))
    sys.exit(0)


def load_known(pid):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def report(r, verbose):
    s = r['seg']
    print('case %-28s paths %6d (%s) decisions %d queries %d solver %.1fs checks %d forks %d pins %d '
          'replays %d conform %d/%d%s wall %.1fs%s' % (
              r['case'], r['paths'], ','.join('%s:%d' % x for x in sorted(r['ends'].items())),
              s.get('decisions', 0), s.get('queries', 0), s.get('solver_s', 0), s.get('checks', 0),
              s.get('forks', 0), s.get('pins', 0), r['replayed'], r['conform'] - len(r['mismatch']),
              r['conform'], ' lost %d' % r['lost'] if r['lost'] else '', r['wall'],
              '' if r['exhausted'] else '  NOT EXHAUSTED'))
    if r['spurious']:
        print('   not reproduced: %s' % sorted(set(x['label'] for x in r['spurious'])))
    if verbose:
        for k in ('errors', 'spurious', 'mismatch'):
            for x in r[k][:3]:
                print('  ', k, x if isinstance(x, str) else json.dumps(x)[:2500])
        print('   pins:', r['pinsites'], 'cuts', r['cuts'], 'approx', r['approx'])
        print('   reached:', r['reached'])
    sys.stdout.flush()


def write_evidence(args, seed, mod, results, wall, viol=(), error=None):
    tot = {}
    for r in results:
        for k, v in r['seg'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['functions']))
    cov = dict(
        states=sum(r['paths'] for r in results),
        transitions=int(tot.get('decisions', 0)),
        exhaustive=bool(results) and all(r['exhausted'] for r in results),
        traces_validated_against_impl=sum(r['conform'] - len(r['mismatch']) for r in results),
        samples=[x for r in results for x in r['samples']][:40],
        functions_encoded=funcs,
        bounds=getattr(mod, 'BOUNDS', '') if mod else '',
        outside=getattr(mod, 'OUTSIDE', '') if mod else '',
        queries_discharged=int(tot.get('queries', 0)),
        solver_seconds=round(tot.get('solver_s', 0), 2),
        property_checks=int(tot.get('checks', 0)),
        concretisations=int(tot.get('pins', 0)),
        ideal_hashes=int(tot.get('ideal_hashes', 0)),
        solver_unknown=int(tot.get('unknown', 0)),
        inconclusive=[dict(case=r['case'], ends=r['ends'], lost=r['lost'], cuts=r['cuts'],
                           pins=r['pinsites'], spurious=sorted(set(x['label'] for x in r['spurious'])))
                      for r in results if not r['exhausted']],
        replay_mismatches=[dict(case=r['case'], n=len(r['mismatch'])) for r in results if r['mismatch']],
        cases=[dict(case=r['case'], paths=r['paths'], ends=r['ends'], queries=r['seg'].get('queries', 0),
                    decisions=r['seg'].get('decisions', 0), checks=r['seg'].get('checks', 0),
                    solver_s=round(r['seg'].get('solver_s', 0), 2), wall_s=round(r['wall'], 2),
                    max_depth=r['depth'], exhausted=r['exhausted'], approx_paths=r['approx'],
                    replays=r['replayed'], reached=r['reached']) for r in results],
    )
    ev = dict(property=args.property, tier=args.tier, seed=seed, level='model_checking',
              coverage=cov, wall_s=round(wall, 2),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
              violations=len(viol))
    if viol:
        cov['counterexamples'] = list(viol)
    if error:
        ev['coverage']['error'] = error
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', args.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
