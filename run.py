"""run.py PROPERTY [quick|thorough]

Decides one property against /repo's working tree: builds the harness, runs it, makes sure that
anything it reports can be replayed, and writes evidence/PROPERTY.json.

Exits 0 if the property held on everything explored, 1 (with a VIOLATION line) if it did not, and
2 if the check could not be run.

run.py --replay FILE      runs the case in a replay file again
"""

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import build
from targets import CHECKS, TARGETS

HERE = os.path.dirname(os.path.abspath(__file__))
REPLAYS = os.path.join(HERE, 'replays')
EVIDENCE = os.path.join(HERE, 'evidence')


# Statuses of a program which was stopped by a sanitizer, an assertion or an illegal access
CRASHES = (77, -signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)


def make_scratch():
    scratch = tempfile.mkdtemp(prefix='verif-')
    # Some checks give up root's privileges
    os.chmod(scratch, 0o777)
    return scratch


def environment(scratch):
    env = dict(os.environ)
    for k in ('LC_ALL', 'LANG', 'LANGUAGE', 'TZ'):
        env.pop(k, None)
    env.update({
        'LC_ALL': 'C.UTF-8',
        'TZ': 'UTC0',
        'VERIF_SCRATCH': scratch,
        'TMPDIR': scratch,
        'HOME': scratch,
        'LIBDCP_RESOURCES': build.REPO,
        'VERIF_DIR': HERE,
        'VERIF_REPO': build.REPO,
        'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0',
        'UBSAN_OPTIONS': 'print_stacktrace=0:exitcode=77:halt_on_error=1',
        'TSAN_OPTIONS': 'exitcode=77:halt_on_error=1:report_signal_unsafe=0',
    })
    return env


def replay(exe, facet, history, choices, scratch):
    p = subprocess.run([exe, '--facet', facet, '--history', ' '.join(map(str, history)), '--replay', ' '.join(map(str, choices))], env=environment(scratch),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode == 1, p.stdout


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['known'] if k['property'] == prop]


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            r = json.load(f)
        exe = build.build([r['target']])[r['target']]
        scratch = make_scratch()
        try:
            if r['facet'] is None:
                p = subprocess.run([exe, '--tier', r['tier'], '--seed', str(r['seed']), '--out', scratch + '/result.json'],
                                   env=environment(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                bad, out = p.returncode in CRASHES, p.stdout
            else:
                bad, out = replay(exe, r['facet'], r.get('history', []), r['choices'], scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print(out)
        sys.exit(1 if bad else 0)

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or '1')
    check = CHECKS[prop]
    start = time.time()

    try:
        exes = build.build(check['targets'])
    except build.BuildError as e:
        print(f'could not build the check for {prop}:\n{e}', file=sys.stderr)
        sys.exit(2)
    built = time.time()

    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(REPLAYS, f))

    scratch = make_scratch()
    violations = []
    unrepeated = []
    facets = []
    try:
        for target in check['targets']:
            exe = exes[target]
            out = os.path.join(scratch, 'result.json')
            cmd = [exe, '--tier', tier, '--seed', str(seed), '--out', out, '--jobs', os.environ.get('VERIF_JOBS', '8')]
            if os.environ.get('VERIF_SCALE'):
                cmd += ['--scale', os.environ['VERIF_SCALE']]
            for _ in range(3):
                p = subprocess.run(cmd, env=environment(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if p.returncode not in CRASHES:
                    break
            if p.returncode in CRASHES:
                # Cases run in processes of their own, so the library made the program crash before any case could be started
                path = os.path.join(REPLAYS, f'{prop}-start.json')
                with open(path, 'w') as g:
                    json.dump({'property': prop, 'target': target, 'facet': None, 'seed': seed, 'tier': tier, 'kind': 'crash',
                               'message': p.stdout[-4000:], 'choices': []}, g, indent=1)
                facets.append({'name': 'start', 'target': target, 'cases': 1, 'discards': 0, 'nontrivial': 1, 'distinct_nontrivial': 1,
                               'labels': {}, 'cpu_s': 0, 'rule': 'the program can be started', 'samples': [],
                               'failure': {'message': p.stdout[-4000:], 'notes': 'starting the program'}})
                violations.append((facets[-1], path))
                continue
            if p.returncode not in (0, 1):
                print(f'{target} stopped with status {p.returncode}:\n{p.stdout[-4000:]}', file=sys.stderr)
                sys.exit(2)
            with open(out) as f:
                result = json.load(f)
            os.unlink(out)
            for f in result['facets']:
                f['target'] = target
                facets.append(f)
                if 'failure' not in f:
                    continue
                racy = f['name'].startswith('sched_')
                times = 10 if racy else 3
                bad = sum(replay(exe, f['name'], f['failure'].get('history', []), f['failure']['choices'], scratch)[0] for _ in range(times))
                if bad == times or (racy and bad > 0):
                    path = os.path.join(REPLAYS, f"{prop}-{f['name']}.json")
                    with open(path, 'w') as g:
                        json.dump({'property': prop, 'target': target, 'facet': f['name'], 'seed': seed, 'tier': tier,
                                   'kind': f['failure']['kind'], 'message': f['failure']['message'],
                                   'case': f['failure']['notes'], 'history': f['failure'].get('history', []), 'choices': f['failure']['choices']}, g, indent=1)
                    violations.append((f, path))
                else:
                    unrepeated.append(f['name'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    samples = []
    for f in facets:
        for s in f['samples'][:2]:
            samples.append({'facet': f['name'], 'case': s})
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': check.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(f['cases'] for f in facets),
            'distinct_nontrivial': sum(f['distinct_nontrivial'] for f in facets),
            'rule': check['rule'] + ' Per facet: ' + '; '.join(f"{f['name']}: {f['rule']}" for f in facets),
            'samples': samples,
            'facets': [{k: f[k] for k in ('name', 'target', 'cases', 'discards', 'nontrivial', 'distinct_nontrivial', 'labels', 'cpu_s')} for f in facets],
            'unrepeated_failures': unrepeated,
            'build_s': round(built - start, 1),
        },
        'assumptions': check.get('assumptions', []),
        'wall_s': round(time.time() - start, 2),
        'violations': len(violations),
    }
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for f, path in violations:
        print(f"{prop} {f['name']}: {f['failure']['message']}")
        print(f"  case: {f['failure']['notes'][:2000]}")
        print(f'VIOLATION property={prop} replay={path}')
    print(f"{prop} {tier} seed={seed}: {evidence['coverage']['evaluations']} cases, {evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violations, build {built - start:.1f}s, total {time.time() - start:.1f}s")
    for u in unrepeated:
        print(f'{prop}: a failure in {u} was not repeated when replayed; not reported')
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
