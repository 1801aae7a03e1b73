"""Runs the sub-checks of a property with Hypothesis in parallel worker processes."""
import argparse
import collections
import concurrent.futures as cf
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from .core import Violation, KnownFinding

CASE_TIMEOUT = 150      # seconds; exceeding it is an inconclusive run, not a violation
SHARD = 400             # cases per task at most


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def blame(exc, here, repo):
    """Was an exception raised by the code under test, or by the harness?"""
    owner = None
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        name = frame.f_code.co_filename
        if name.startswith(os.path.join(repo, 'src') + os.sep):
            owner = 'repo'
        elif name.startswith(here + os.sep):
            owner = 'harness'
    return owner


def execute(sub, case, here, repo, known):
    """Run one case. Returns labels; raises Violation; other exceptions are harness errors."""
    import numpy as np
    np.random.seed(case.get('np_seed', 0) if isinstance(case, dict) else 0)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    signal.alarm(CASE_TIMEOUT)
    try:
        return sub.run(case) or []
    except Violation:
        raise
    except KnownFinding as e:
        if e.key in known:
            return ['known:' + e.key]
        raise Violation(str(e))
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if blame(e, here, repo) == 'repo':
            frames = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(repo)]
            raise Violation(f'{type(e).__name__}: {str(e)[:200]} (raised in {os.path.basename(frames[-1].filename)},'
                            f' {frames[-1].name}) on valid input') from e
        if isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError, AttributeError)):
            # the checks read every result of the code as documented: one that cannot be read so is not what was promised
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f'{type(e).__name__}: {str(e)[:200]} (reading a result, {os.path.basename(where.filename)}:{where.lineno})') from e
        raise
    finally:
        signal.alarm(0)


def load_known(here, prop):
    path = os.path.join(here, 'KNOWN_FINDINGS.json')
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data['known'] if e['property'] == prop}


def get_module(prop):
    return importlib.import_module('checks.' + prop.lower())


def run_shard(prop, sub_name, n, seed, here, repo, scratch):
    """Executed in a worker process."""
    faulthandler.enable()
    signal.signal(signal.SIGALRM, _alarm)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as cj
    cj.MAX_SHRINKING_SECONDS = 60
    tempfile.tempdir = scratch
    os.chdir(scratch)
    module = get_module(prop)
    sub = next(s for s in module.SUBS if s.name == sub_name)
    known = load_known(here, prop)

    stats = dict(evaluations=0, hashes=set(), labels=collections.Counter(), samples=[], failing=None, message=None)

    def test(case):
        stats['evaluations'] += 1
        try:
            labels = execute(sub, case, here, repo, known)
        except Violation as e:
            stats['failing'], stats['message'] = case, str(e)
            raise
        for label in labels:
            stats['labels'][label] += 1
        if 'trivial' not in labels:
            text = json.dumps(case, sort_keys=True)
            digest = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if digest not in stats['hashes']:
                stats['hashes'].add(digest)
                if len(stats['samples']) < 2 and len(text) < 2000 and len(stats['hashes']) > 3:
                    stats['samples'].append(dict(check=sub.name, case=case))

    test = settings(
        max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
    )(given(sub.strategy)(test))
    test = hypothesis.seed(seed)(test)
    violation = error = None
    try:
        test()
    except Violation:
        violation = dict(sub=sub.name, case=stats['failing'], message=stats['message'])
    except CaseTimeout:
        error = f'{sub.name}: a case took more than {CASE_TIMEOUT} s: inconclusive\n' + traceback.format_exc()
    except BaseException as e:
        if isinstance(e, hypothesis.errors.Flaky) and stats['failing'] is not None:
            violation = dict(sub=sub.name, case=stats['failing'], message=stats['message'])
        else:
            error = f'{sub.name}: ' + traceback.format_exc()
    return dict(sub=sub.name, evaluations=stats['evaluations'], hashes=stats['hashes'], labels=dict(stats['labels']),
                samples=stats['samples'], violation=violation, error=error)


def derive(seed, *parts):
    text = ':'.join([str(seed)] + [str(p) for p in parts])
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], 'big')


def save_replay(here, prop, violation):
    folder = os.path.join(here, 'replays')
    os.makedirs(folder, exist_ok=True)
    text = json.dumps(dict(property=prop, check=violation['sub'], case=violation['case'],
                           message=violation['message']), indent=1, sort_keys=True)
    digest = hashlib.sha256(text.encode()).hexdigest()[:10]
    path = os.path.join(folder, f'{prop}-{violation["sub"]}-{digest}.json')
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def main(argv, here, repo):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--replay')
    parser.add_argument('--sub', help='only this sub-check (for development; writes no evidence)')
    parser.add_argument('--scale', type=float, default=1.0, help='multiply case counts (for development)')
    parser.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args(argv)
    prop = args.property.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix=f'tkv-{prop}-')
    try:
        return run(args, prop, seed, here, repo, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(args, prop, seed, here, repo, scratch):
    start = time.time()
    warnings.simplefilter('ignore')
    import tenkit
    if not os.path.abspath(tenkit.__path__[0]).startswith(os.path.join(repo, 'src')):
        print(f'error: tenkit was imported from {tenkit.__path__[0]}', file=sys.stderr)
        return 3
    module = get_module(prop)
    known = load_known(here, prop)

    if args.replay:
        with open(args.replay) as f:
            saved = json.load(f)
        sub = next(s for s in module.SUBS if s.name == saved['check'])
        signal.signal(signal.SIGALRM, _alarm)
        tempfile.tempdir = scratch
        os.chdir(scratch)
        try:
            labels = execute(sub, saved['case'], here, repo, known)
        except Violation as e:
            print(f'{saved["check"]}: {e}')
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        print(f'{saved["check"]}: holds for this case {labels}')
        return 0

    tasks = []
    for sub in module.SUBS:
        if args.sub and sub.name != args.sub:
            continue
        n = max(1, int((sub.quick if args.tier == "quick" else sub.thorough) * args.scale))
        shards = max(1, min(8, n // 10), -(-n // SHARD))
        for i in range(shards):
            size = n // shards + (i < n % shards)
            cost = sub.weight * size
            tasks.append((cost, i, sub.name, size, derive(seed, prop, sub.name, i)))
    tasks.sort(key=lambda t: -t[0])

    total = dict(evaluations=0, hashes={}, labels={}, samples=[], per_check={})
    violation = None
    errors = []
    executor = cf.ProcessPoolExecutor(max_workers=args.jobs, mp_context=mp.get_context('fork'))
    try:
        futures = [executor.submit(run_shard, prop, name, size, s, here, repo, scratch) for _, _, name, size, s in tasks]
        for future in cf.as_completed(futures):
            r = future.result()
            total['evaluations'] += r['evaluations']
            total['hashes'].setdefault(r['sub'], set()).update(r['hashes'])
            counter = total['labels'].setdefault(r['sub'], collections.Counter())
            counter.update(r['labels'])
            total['per_check'][r['sub']] = total['per_check'].get(r['sub'], 0) + r['evaluations']
            total['samples'].extend(r['samples'])
            if r['error']:
                errors.append(r['error'])
            if r['violation']:
                violation = r['violation']
                break
    except cf.process.BrokenProcessPool as e:
        errors.append(f'a worker process died: {e}')
    finally:
        for p in list((executor._processes or {}).values()):
            try:
                p.kill()
            except Exception:
                pass
        executor.shutdown(wait=False, cancel_futures=True)

    found = collections.Counter()
    for counter in total['labels'].values():
        for label, count in counter.items():
            if label.startswith('known:'):
                found[label[6:]] += count
    wall = time.time() - start
    samples, seen = [], collections.Counter()
    for s in total['samples']:
        if seen[s['check']] < 2:
            seen[s['check']] += 1
            samples.append(s)
    evidence = dict(
        property=prop, tier=args.tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=total['evaluations'],
            distinct_nontrivial=sum(len(h) for h in total['hashes'].values()),
            rule=module.RULE,
            samples=samples,
            per_check={k: dict(evaluations=v, distinct_nontrivial=len(total['hashes'][k]),
                               classes={a: b for a, b in sorted(total['labels'][k].items())})
                       for k, v in sorted(total['per_check'].items())},
            known_findings=dict(found),
        ),
        assumptions=getattr(module, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=1 if violation else 0,
    )
    if not args.sub:
        os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
        with open(os.path.join(here, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')

    print(f'{prop}: {evidence["coverage"]["evaluations"]} cases, '
          f'{evidence["coverage"]["distinct_nontrivial"]} distinct and non-trivial, {wall:.1f} s')
    if args.sub or os.environ.get('TKV_VERBOSE'):
        print(json.dumps(evidence['coverage']['per_check'], indent=1))
    if violation:
        path = save_replay(here, prop, violation)
        print(f'{violation["sub"]}: {violation["message"]}')
        print(f'case: {json.dumps(violation["case"])[:2000]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for e in sorted(set(errors))[:2]:
            lines = e.splitlines()
            print('\n'.join(lines[:3] + ['...'] + lines[-40:] if len(lines) > 45 else lines), file=sys.stderr)
        print(f'error: {len(errors)} part(s) of the check failed', file=sys.stderr)
        return 2
    for key, entry in known.items():
        if found[key]:
            print(f'KNOWN-FINDING: property={prop} {entry["what"]}')
    return 0
