"""
Run the check of one property: spawn the shards, aggregate, write the evidence, report.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import env

HERE = env.HERE


def load(pid):
    env.setup_paths()
    mod = importlib.import_module(f'pbt.props.{pid.lower()}')
    return mod.PROP


def worker(argv):
    pid, seed, shard, n, tier, out = argv
    prop = load(pid)
    from . import core

    core.run_shard(prop, int(seed), int(n), tier, int(shard), out)
    return 0


def replay(pid, path):
    prop = load(pid)
    from . import core

    with open(path) as f:
        rec = json.load(f)
    try:
        prop.check(rec['case'], lambda *a: None)
    except core.Skip as e:
        print(f'replay skipped: {e}')
        return 0
    except core.Violation as e:
        print(e)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('replay: the property holds for this case')
    return 0


def main():
    if sys.argv[1] == '--worker':
        return worker(sys.argv[2:])
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(pid, sys.argv[3])
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    t0 = time.time()
    prop = load(pid)
    n = prop.quick if tier == 'quick' else prop.thorough
    n = max(1, int(n * scale))
    shards = prop.shards
    # A budget, not a verdict: a shard that has not ended by then is reported as an error of the check.
    limit = 840 if tier == 'quick' else 6 * 3600
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    procs = []
    try:
        for s in range(shards):
            home = os.path.join(scratch, f'home{s}')
            os.makedirs(home)
            e = dict(os.environ, HOME=home, MPLCONFIGDIR=home, TMPDIR=home, XDG_CACHE_HOME=home)
            out = os.path.join(scratch, f'out{s}.json')
            log = open(os.path.join(scratch, f'log{s}'), 'w')
            p = subprocess.Popen(
                [sys.executable, '-W', 'ignore', '-m', 'pbt.run', '--worker', pid,
                 str(seed * 1009 + s), str(s), str(n), tier, out],
                cwd=HERE, env=e, stdout=log, stderr=subprocess.STDOUT)
            procs.append((p, out, log.name))
        pending = set(range(shards))
        results = {}
        error = None
        failure = None
        while pending and failure is None and error is None:
            time.sleep(0.1)
            for s in sorted(pending):
                p, out, log = procs[s]
                rc = p.poll()
                if rc is None:
                    continue
                pending.discard(s)
                if rc != 0 or not os.path.exists(out):
                    with open(log) as f:
                        error = f'shard {s} ended with {rc}\n' + f.read()[-6000:]
                    continue
                with open(out) as f:
                    results[s] = json.load(f)
                if results[s]['failure']:
                    failure = results[s]['failure']
            if time.time() - t0 > limit:
                error = error or f'time budget of {limit} s exhausted'
        if failure is None and error is not None and len(pending):
            # an error in one shard does not hide a violation found by another
            end = time.time() + 120
            while pending and time.time() < end and failure is None:
                time.sleep(0.2)
                for s in sorted(pending):
                    if procs[s][0].poll() is not None:
                        pending.discard(s)
                        if os.path.exists(procs[s][1]):
                            with open(procs[s][1]) as f:
                                r = json.load(f)
                            results[s] = r
                            failure = failure or r['failure']
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)
    if failure is None and error is not None:
        print(f'ERROR of the check {pid}: {error}', file=sys.stderr)
        return 2

    def add(key):
        tot = {}
        for r in results.values():
            for k, v in r[key].items():
                tot[k] = tot.get(k, 0) + v
        return dict(sorted(tot.items()))

    nontrivial = set().union(*[set(r['nontrivial']) for r in results.values()]) if results else set()
    samples = [c for r in results.values() for c in r['samples']][:4]
    known = {}
    for r in results.values():
        known.update(r['known'])
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': prop.level,
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results.values()),
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.rule,
            'samples': samples,
            'skipped': sum(r['skipped'] for r in results.values()),
            'classes': add('labels'),
            'comparisons': add('notes'),
            'shards': shards,
        },
        'assumptions': list(prop.assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if failure else 0,
    }
    if known:
        evidence['coverage']['known_findings_hit'] = sorted(known)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for text in known.values():
        print(f'KNOWN-FINDING: property={pid} {text}')
    if failure:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f'{pid}-seed{seed}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': failure['case'], 'message': failure['message']}, f, indent=1)
        print(failure['message'])
        print('case:', json.dumps(failure['case']))
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    c = evidence['coverage']
    print(f"{pid}: held on {c['evaluations']} cases ({c['distinct_nontrivial']} distinct non-trivial, "
          f"{c['skipped']} skipped) in {evidence['wall_s']} s")
    return 0


if __name__ == '__main__':
    sys.exit(main())
