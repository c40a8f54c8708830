"""check PROPERTY [quick|thorough] [--replay FILE] [--seed N] [--workers N]"""
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HERE, os.path.join(REPO, 'src')]

import vclock  # noqa: E402

vclock.install()

import locks  # noqa: E402

locks.install(os.path.join(REPO, 'src', 'oidcrp') + os.sep)

import argparse  # noqa: E402
import faulthandler  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import subprocess  # noqa: E402
import tempfile  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')

import core  # noqa: E402
import deps  # noqa: E402
import net  # noqa: E402

net.install()
deps.install()

HANG = {'quick': 420, 'thorough': 860}


def work(args, only=None):
    """Run the check in this process."""
    import oidcrp
    where = os.path.dirname(os.path.abspath(oidcrp.__file__))
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        raise core.Inconclusive('oidcrp imported from %s' % where)
    r = core.Run(args.prop, args.tier, args.seed, args.worker, args.workers, only=only, budget=args.budget)
    mod = importlib.import_module(args.prop.lower())
    os.chdir(r.scratch)
    mod.run(r)
    os.chdir('/')
    r.rule = r.rule or mod.RULE
    r.assumptions = getattr(mod, 'ASSUMPTIONS', [])
    return r.result()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--worker', type=int, default=-1)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--out')
    args = ap.parse_args()
    if args.replay:
        with open(args.replay) as f:
            d = json.load(f)
        args.seed, args.tier, args.worker, args.workers = d['seed'], d['tier'], 0, 1
        res = work(args, only=(d['family'], d['index']))
        for v in res['violations']:
            print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
            print('  %s: %s' % (v['kind'], v['detail']))
        if not res['violations']:
            print('no violation on replay')
        sys.exit(1 if res['violations'] else 0)

    if args.worker >= 0:
        try:
            res = work(args)
        except BaseException:
            res = {'crash': traceback.format_exc()}
        with open(args.out, 'w') as f:
            json.dump(res, f, default=repr)
        sys.stdout.flush()
        os._exit(0)

    t0 = time.monotonic()
    workers = args.workers or (4 if args.tier == 'quick' else 8)
    with tempfile.TemporaryDirectory(prefix='verif-run-') as tmp:
        procs = []
        for k in range(workers):
            out = os.path.join(tmp, 'w%d.json' % k)
            cmd = [sys.executable, '-B', os.path.abspath(__file__), args.prop, args.tier, '--seed', str(args.seed),
                   '--worker', str(k), '--workers', str(workers), '--out', out]
            if args.budget:
                cmd += ['--budget', str(args.budget)]
            env = dict(os.environ, TMPDIR=tmp)
            procs.append((subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL), out))
        results, hung = [], 0
        for p, out in procs:
            try:
                p.wait(max(1, HANG.get(args.tier, 600) - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hung += 1
                continue
            try:
                with open(out) as f:
                    results.append(json.load(f))
            except Exception as err:
                results.append({'crash': 'worker ended with %s, no result: %r' % (p.returncode, err)})
    wall = time.monotonic() - t0
    crashes = [r['crash'] for r in results if 'crash' in r]
    good = [r for r in results if 'crash' not in r]
    for c in crashes:
        print(c, file=sys.stderr)
    distinct, events, families, samples, violations, known = set(), {}, {}, [], [], {}
    rule, assumptions = '', []
    for r in good:
        distinct.update(r['distinct'])
        for d, s in ((events, r['events']), (families, r['families'])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        samples += r['samples']
        violations += r['violations']
        known.update(r['known'])
        rule, assumptions = r['rule'], r['assumptions']
    if hung:
        os.makedirs(os.path.join(core.EVID, 'replay'), exist_ok=True)
        path = os.path.join(core.EVID, 'replay', '%s-hang.json' % args.prop)
        with open(path, 'w') as f:
            json.dump({'property': args.prop, 'kind': 'no progress', 'seed': args.seed, 'tier': args.tier,
                       'detail': '%d workers did not finish in time' % hung}, f)
        violations.append({'kind': 'no progress', 'detail': 'a workload did not terminate', 'replay': path})
    evaluations = sum(r['evaluations'] for r in good)
    seen_f, picked = set(), []
    for s in samples:
        if s['family'] not in seen_f or len(picked) < 6:
            seen_f.add(s['family'])
            picked.append(s)
    ev = {'property': args.prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
          'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': rule,
                       'samples': picked[:14], 'cases_per_family': families, 'events_observed': events,
                       'workers': workers, 'known_findings_reproduced': sorted(known)},
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(core.EVID, exist_ok=True)
    with open(os.path.join(core.EVID, args.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    lib = core.known_findings(args.prop)
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s' % (args.prop, k, lib.get(k, '')))
    kinds = set()
    for v in violations:
        if v['kind'] in kinds and len(kinds) > 0:
            continue
        kinds.add(v['kind'])
        print('VIOLATION property=%s replay=%s' % (args.prop, v['replay']))
        print('  %s: %s' % (v['kind'], v['detail']))
    print('%s %s seed=%s: %d cases, %d distinct, %d violations, %.1fs' % (
        args.prop, args.tier, args.seed, evaluations, len(distinct), len(violations), wall))
    if violations:
        sys.exit(1)
    if crashes or not good or evaluations == 0 or not distinct:
        print('inconclusive: the monitors did not observe what they should', file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
