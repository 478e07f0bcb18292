import argparse, collections, importlib, json, os, sys, tempfile, time, traceback

from . import build, runner, zygote
from .core import Ctx, Violation, HarnessError, rmtree, shorten

ROOT = runner.HARNESS_DIR

def find_module(prop):
    for n in sorted(os.listdir(os.path.join(ROOT, 'checks'))):
        if n.lower().startswith(prop.lower()) and n.endswith('.py'):
            return importlib.import_module('checks.' + n[:-3])
    raise SystemExit('no check for ' + prop)

def known_findings(prop):
    """(key, text) pairs of the known findings of this property."""
    out = []
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    out.append((key, text))
    except FileNotFoundError:
        pass
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--suite')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.monotonic()
    os.umask(0o022)
    base = tempfile.mkdtemp(prefix='bupvt-', dir=build.scratch_base(getattr(find_module(a.prop), 'PUBLIC_SCRATCH', False)))
    os.chmod(base, 0o755)
    try:
        rc = go(a, base, t0)
    except HarnessError as ex:
        print('harness error: %s' % ex, file=sys.stderr)
        rc = 2
    except build.BuildError as ex:
        print('build failed: %s' % ex, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not a.keep:
            rmtree(base)
    sys.stdout.flush()
    sys.exit(rc)

def go(a, base, t0):
    mod = find_module(a.prop)
    if getattr(mod, 'NEEDS_SHIM', False):
        if not os.environ.get('VT_SHIM'):
            # Run everything again with the shim loaded (inactive until armed).
            so = build.build_shim(base)
            import subprocess
            return subprocess.run([sys.executable, '-m', 'vt.main'] + sys.argv[1:],
                                  env=dict(os.environ, VT_SHIM=so, LD_PRELOAD=so)).returncode
        Ctx.shim = os.environ.pop('VT_SHIM')
        os.environ.pop('LD_PRELOAD')
    src = build.build(os.path.join(base, 'src'))
    Ctx.src = src
    os.environ['HOME'] = base
    zygote.setup(src)
    import hypothesis, hypothesis.strategies  # before forking
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(base, 'hyp')
    t_build = time.monotonic() - t0

    if a.replay:
        name, case = runner.load_case(a.replay)
        suite = [s for s in mod.SUITES if s.name == name][0]
        msg = runner.judge_in_child(suite, case, a.tier, base, suite.hang)
        if msg:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        print('case passes')
        return 0

    for key, text in known_findings(a.prop):
        fn = getattr(mod, 'KNOWN', {}).get(key)
        if fn is None:
            continue
        Ctx.base = os.path.join(base, 'known')
        os.makedirs(Ctx.base, exist_ok=True)
        tempfile.tempdir = Ctx.base
        Ctx.start_server()
        ctx = Ctx(a.tier, 'known')
        try:
            still = fn(ctx)
        finally:
            ctx.cleanup()
            Ctx.stop_server()
        if still:
            print('KNOWN-FINDING: property=%s %s %s' % (a.prop, key, text))
        else:
            print('note: known finding %s no longer fails' % key)

    limit = 500 if a.tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_S', '3000'))
    if a.scale != 1.0:
        for s in mod.SUITES:
            s.quick = max(1, int(s.quick * a.scale))
            s.thorough = max(1, int(s.thorough * a.scale))
    results = runner.run_suites(a.prop, mod.SUITES, a.tier, a.seed, base, limit,
                                jobs=a.jobs, only=a.suite)
    per = {}
    violations, errors, unrepro = [], [], []
    for r in results:
        p = per.setdefault(r['suite'], {
            'evaluations': 0, 'nontrivial': set(), 'labels': collections.Counter(),
            'samples': [], 'commands': 0, 'truncated': False})
        p['evaluations'] += r['evaluations']
        p['nontrivial'] |= r['nontrivial']
        p['labels'] += r['labels']
        p['samples'] += r['samples']
        p['commands'] += r['commands']
        p['truncated'] |= r['truncated']
        if r['violation']:
            violations.append((r['suite'],) + r['violation'])
        if r['error']:
            errors.append(r['error'])
        unrepro += r['unreproduced']
    if errors and not violations:
        for e in errors[:1]:
            print('harness error (%d workers):' % len(errors), e[:200], '...', e[-1500:], file=sys.stderr)
        return 2
    ev = sum(p['evaluations'] for p in per.values())
    nt = sum(len(p['nontrivial']) for p in per.values())
    rules = {s.name: s.rule for s in mod.SUITES}
    samples = []
    for n in sorted(per):
        samples += ['%s: %s' % (n, x) for x in per[n]['samples'][:3]]
    wall = time.monotonic() - t0
    evidence = {
        'property': a.prop, 'tier': 'thorough' if a.tier == 'thorough' else 'quick',
        'seed': a.seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': nt,
            'rule': ' | '.join('%s: %s' % (n, rules.get(n, '')) for n in sorted(per)),
            'samples': samples,
            'bup_commands_run': sum(p['commands'] for p in per.values()),
            'suites': {n: {'evaluations': p['evaluations'],
                           'distinct_nontrivial': len(p['nontrivial']),
                           'labels': dict(sorted(p['labels'].items())),
                           'truncated_by_time': p['truncated']}
                       for n, p in sorted(per.items())},
            'unreproduced_failures': [shorten(str(u), 600) for u in unrepro],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if not (a.suite or a.scale != 1.0):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    for n, p in sorted(per.items()):
        print('%s/%s: %d cases, %d distinct non-trivial, %d commands%s %s' % (
            a.prop, n, p['evaluations'], len(p['nontrivial']), p['commands'],
            ' (stopped by time budget)' if p['truncated'] else '',
            dict(sorted(p['labels'].items()))))
    print('wall %.1fs (build %.1fs)' % (wall, t_build))
    for u in unrepro:
        print('note: unreproduced failure: %s' % (shorten(str(u), 3000),))
    if violations:
        violations.sort(key=lambda v: len(repr(v[1])))
        suite, case, msg = violations[0]
        path = runner.save_replay(a.prop, suite, case, msg, a.seed,
                                  os.path.join(ROOT, 'replay'))
        print('suite %s: %s' % (suite, shorten(msg, 4000)))
        print('case: %s' % shorten(case, 3000))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    return 0

if __name__ == '__main__':
    main()
