"""Runner: drives the facets of one property, shrinks and replays failures, writes the evidence file."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .boot import boot, HarnessError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 60             # one case normally takes milliseconds
SHRINK_WALL_S = 90          # stop shrinking this long after the first failure of a run
QUICK_WALL_S = 600
THOROUGH_WALL_S = 820


class CaseTimeout(Exception):
    pass


def load(prop):
    mod = importlib.import_module('checks.' + prop.lower())
    reg = mod.R
    assert reg.prop == prop
    return reg


def load_known():
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return json.load(fp)['findings']


def run_case(facet, spec):
    """Run one case.  Returns the case context; raises whatever the facet raises"""
    import random
    import numpy as np
    from .core import Cx
    random.seed(0)
    np.random.seed(0)
    cx = Cx()

    def on_alarm(*_args):
        raise CaseTimeout('case used more than %ds of CPU time' % CASE_CPU_S)

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        facet.fn(spec, cx)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return cx


def quiet_stdio():
    """The code under test prints a lot"""
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)


def dump_json(path, data):
    tmp = path + '.tmp'
    with open(tmp, 'w') as fp:
        json.dump(data, fp)
    os.replace(tmp, path)


def derive_seed(seed, prop, facet, shard):
    return int(hashlib.sha256(('%s/%s/%s/%s' % (seed, prop, facet, shard)).encode()).hexdigest()[:12], 16)


def worker(prop, facet, seed, shard, n, known, out):
    """One facet x one shard, in its own process.  Writes out + '.json' (and out + '.fail' on failures)"""
    quiet_stdio()
    sys.stderr = open(out + '.err', 'w')
    import warnings
    warnings.simplefilter('ignore')
    from .core import spec_hash
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    known_hashes = {k['spec_hash'] for k in known if k.get('facet') == facet.name and 'spec_hash' in k}
    st = dict(facet=facet.name, shard=shard, evaluations=0, nontrivial=0, hashes=[], labels={}, samples=[],
              excluded=0, failed=False, error=None)
    hashes = set()
    nt_hashes = set()
    failing = [False]

    @hypothesis.seed(derive_seed(seed, prop, facet.name, shard))
    @settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False, print_blob=False,
              phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
    @given(facet.strategy)
    def case(spec):
        h = spec_hash(spec)
        if h in known_hashes:
            st['excluded'] += 1
            return
        try:
            cx = run_case(facet, json.loads(json.dumps(spec)))
        except (Exception, CaseTimeout) as err:
            if not failing[0]:
                failing[0] = True
            st['failed'] = True
            dump_json(out + '.fail', dict(
                facet=facet.name, spec=spec, error='%s: %s' % (type(err).__name__, err),
                traceback=traceback.format_exc(), when=time.time()))
            raise
        if failing[0]:
            return      # shrinking: do not count these
        st['evaluations'] += 1
        for lb in cx.labels:
            st['labels'][lb] = st['labels'].get(lb, 0) + 1
        hashes.add(h)
        if cx.nontrivial and h not in nt_hashes:
            nt_hashes.add(h)
            k = len(nt_hashes)
            if k in (1, 2, 5, 20, 60):
                st['samples'].append(spec)

    try:
        case()
    except BaseException as err:
        if not st['failed']:
            st['error'] = '%s: %s\n%s' % (type(err).__name__, err, traceback.format_exc())
    st['distinct'] = len(hashes)
    st['nontrivial'] = len(nt_hashes)
    st['hashes'] = sorted(nt_hashes)
    dump_json(out + '.json', st)
    os._exit(0)


def replay_one(reg, data):
    """Returns None if the case holds, else error text"""
    facet = next((f for f in reg.facets if f.name == data['facet']), None)
    if facet is None:
        raise HarnessError('unknown facet %r' % data['facet'])
    try:
        run_case(facet, data['spec'])
    except (Exception, CaseTimeout):
        return traceback.format_exc()
    return None


def short(spec, limit=1500):
    text = json.dumps(spec)
    return spec if len(text) <= limit else text[:limit] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--facet')
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--src', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--first', action='store_true', help='stop at the first failure, without shrinking it (development)')
    args = ap.parse_args()
    prop = args.prop.upper()
    t0 = time.time()

    boot(args.src)
    reg = load(prop)

    if args.replay:
        with open(args.replay) as fp:
            data = json.load(fp)
        saved = os.dup(1)
        quiet_stdio()
        err = replay_one(reg, data)
        sys.stdout.flush()
        os.dup2(saved, 1)
        if err:
            sys.stderr.write(err)
            print('VIOLATION property=%s replay=%s' % (prop, args.replay))
            return 1
        print('replay holds: property=%s facet=%s' % (prop, data['facet']))
        return 0

    known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'open']
    facets = [f for f in reg.facets if not args.facet or re.fullmatch(args.facet, f.name)]
    if not facets:
        raise HarnessError('no facets')

    # Plain regression replays (saved, shrunk cases), without the generator library
    violations = []
    regress_dir = os.path.join(ROOT, 'regress', prop)
    regress = 0
    if os.path.isdir(regress_dir) and not args.facet:
        saved = os.dup(1)
        quiet_stdio()
        for fn in sorted(os.listdir(regress_dir)):
            if fn.endswith('.json'):
                with open(os.path.join(regress_dir, fn)) as fp:
                    data = json.load(fp)
                regress += 1
                err = replay_one(reg, data)
                if err:
                    violations.append(dict(facet=data['facet'], spec=data['spec'], error=err.strip().split('\n')[-1],
                                           traceback=err, source='regress/%s/%s' % (prop, fn)))
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)

    # Known findings are replayed so that the run says whether they still fail
    for k in known:
        data = dict(facet=k['facet'], spec=k['spec'])
        saved = os.dup(1)
        quiet_stdio()
        err = replay_one(reg, data)
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)
        if err:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    results, fails, timed_out, crashed = [], [], [], []
    try:
        todo = []
        for f in facets:
            n = args.n or (f.n if args.tier == 'quick' else f.thorough)
            per_shard = 1000 if args.tier == 'quick' else 4000
            shards = max(1, min(8, -(-n // per_shard)))
            for s in range(shards):
                todo.append((f, s, -(-n // shards)))
        # longest first
        todo.sort(key=lambda it: -it[2])
        ctx = multiprocessing.get_context('fork')
        running = {}
        wall = QUICK_WALL_S if args.tier == 'quick' else THOROUGH_WALL_S
        first_fail = None
        index = 0
        while todo or running:
            while todo and len(running) < args.jobs and first_fail is None:
                f, s, n = todo.pop(0)
                out = os.path.join(tmp, '%03d' % index)
                index += 1
                p = ctx.Process(target=worker, args=(prop, f, args.seed, s, n, known, out))
                p.start()
                running[out] = (p, f, s)
            if first_fail is not None:
                todo = []
            time.sleep(0.02)
            for out, (p, f, s) in list(running.items()):
                if not p.is_alive():
                    p.join()
                    del running[out]
                    if os.path.exists(out + '.json'):
                        with open(out + '.json') as fp:
                            results.append(json.load(fp))
                    elif not os.path.exists(out + '.fail'):
                        crashed.append((f.name, p.exitcode, open(out + '.err').read()[-2000:]
                                        if os.path.exists(out + '.err') else ''))
                if os.path.exists(out + '.fail') and first_fail is None:
                    first_fail = time.time()
            now = time.time()
            if first_fail is not None and now - first_fail > (0 if args.first else SHRINK_WALL_S) or now - t0 > wall:
                for out, (p, f, s) in running.items():
                    p.kill()
                    p.join()
                    timed_out.append(f.name)
                running = {}
                todo = []
        for fn in sorted(os.listdir(tmp)):
            if fn.endswith('.fail'):
                with open(os.path.join(tmp, fn)) as fp:
                    fails.append(json.load(fp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    errors = [r for r in results if r['error']]
    violations.extend(fails)

    # Evidence
    by_facet = {}
    labels = {}
    samples = []
    all_hashes = set()
    evaluations = regress
    for r in sorted(results, key=lambda r: (r['facet'], r['shard'])):
        bf = by_facet.setdefault(r['facet'], dict(evaluations=0, distinct_nontrivial=set(), excluded_known=0))
        bf['evaluations'] += r['evaluations']
        bf['distinct_nontrivial'].update(r['hashes'])
        bf['excluded_known'] += r['excluded']
        evaluations += r['evaluations']
        all_hashes.update((r['facet'], h) for h in r['hashes'])
        for k, v in r['labels'].items():
            labels['%s:%s' % (r['facet'], k)] = labels.get('%s:%s' % (r['facet'], k), 0) + v
        if r['shard'] == 0:
            samples.extend(dict(facet=r['facet'], spec=short(s)) for s in r['samples'][:3])
    for bf in by_facet.values():
        bf['distinct_nontrivial'] = len(bf['distinct_nontrivial'])
    evidence = dict(
        property=prop, tier=args.tier, seed=args.seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(all_hashes), rule=reg.rule, samples=samples,
            facets=by_facet, labels=dict(sorted(labels.items())), regression_replays=regress,
            timed_out_facets=sorted(set(timed_out)),
        ),
        assumptions=['IEEE double arithmetic; comparisons use tolerances relative to the magnitudes involved',
                     'generated domains are those described per property in DESIGN.md'],
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    if not args.no_evidence:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        dump_json(os.path.join(ROOT, 'evidence', prop + '.json'), evidence)

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d facets, %.1fs' % (
        prop, args.tier, args.seed, evaluations, len(all_hashes), len(by_facet), time.time() - t0))

    if violations:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for v in violations:
            h = hashlib.sha1(json.dumps(v['spec'], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join('replays', '%s-%s-%s.json' % (prop, v['facet'], h))
            v['property'] = prop
            v['replay'] = './run_check %s --replay %s' % (prop, path)
            with open(os.path.join(ROOT, path), 'w') as fp:
                json.dump(v, fp, indent=1)
            cmd = [os.path.join(ROOT, 'run_check'), prop, '--replay', path, '--src', args.src]
            if args.first:
                cmd = ['false']
            try:
                rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                    timeout=CASE_CPU_S * 2).returncode
            except subprocess.TimeoutExpired:
                rc = 1
            note = '' if rc == 1 else '  (fails only after earlier cases in the same process)'
            print('  facet %s: %s%s' % (v['facet'], v['error'][:600], note))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors or crashed:
        for r in errors:
            print('HARNESS ERROR facet %s: %s' % (r['facet'], r['error']))
        for name, code, err in crashed:
            print('HARNESS ERROR facet %s: worker ended with %s\n%s' % (name, code, err))
        return 2
    if timed_out:
        print('note: time limit reached in facets %s (inconclusive there)' % sorted(set(timed_out)))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except HarnessError as exc:
        print('HARNESS ERROR: %s' % exc)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
