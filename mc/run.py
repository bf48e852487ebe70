"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import pathlib
import random
import sys
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))

from mc import clock  # noqa
from mc import engine  # noqa
from mc import load  # noqa

KNOWN = VERIF / 'known_findings.json'


BUDGET_S = int(os.environ.get('MC_BUDGET', 780))


def find_module(prop):
    names = [
        p.stem for p in (VERIF / 'mc' / 'checks').glob('*.py')
        if p.stem.split('_')[0] == prop.lower()
    ]
    if len(names) != 1:
        raise SystemExit('no check for {}'.format(prop))
    return 'mc.checks.' + names[0]


def known_findings(prop):
    if not KNOWN.exists():
        return []
    return [
        f for f in json.loads(KNOWN.read_text())['findings']
        if f['property'] == prop and f['status'] == 'known'
    ]


def write_replay(prop, record):
    directory = VERIF / 'replay'
    directory.mkdir(exist_ok=True)
    name = ''.join(
        c if c.isalnum() else '_' for c in record['key'])[:80].strip('_')
    path = directory / '{}-{}.json'.format(prop, name)
    record = dict(record, property=prop, rerun=(
        'bash {}/bin/check {} --replay {}'.format(VERIF, prop, path)))
    path.write_text(json.dumps(record, indent=1))
    return path


def report(prop, record):
    path = write_replay(prop, record)
    print('VIOLATION property={} replay={}'.format(prop, path))
    print('  key: ' + record['key'])
    print('  ' + record['message'].replace('\n', '\n  '))
    for label, option in record.get('described', ()):
        print('    {} = {}'.format(label, option))


def write_evidence(prop, tier, seed, module, wall, violations, coverage):
    directory = VERIF / 'evidence'
    directory.mkdir(exist_ok=True)
    (directory / '{}.json'.format(prop)).write_text(json.dumps({
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(module, 'LEVEL', 'model_checking'),
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())) + COMMON,
        'wall_s': round(wall, 2),
        'violations': violations,
    }, indent=1))


COMMON = [
    'pyelliptic 1.5.10 is not installable here; a stand-in on top of '
    'coincurve/pycryptodome (/verif/shims) answers for it. All of the '
    "repository's tests which need it run against it (mc/fullsuite.py).",
    'PyPy 7.3.15 (Python 3.9), third-party libraries as installed.',
]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument(
        '--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--jobs', type=int, default=None)
    parser.add_argument('--replay')
    parser.add_argument('--scenario')
    args = parser.parse_args()
    prop = args.property
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    random.seed(seed)
    started = clock.REAL[0]()
    os.environ['MC_TIER'] = tier
    module = None
    if prop == 'C27':
        from mc import sched
        sched.install()
    try:
        load.load()
        module = importlib.import_module(find_module(prop))
        scenarios = module.scenarios(tier)
    except (OSError, MemoryError, engine.EngineError):
        raise
    except Exception as e:  # pylint: disable=broad-except
        # The unchanged code imports and builds its fixtures; code which
        # does not cannot have the property
        record = {
            'key': 'import:{}'.format(type(e).__name__),
            'message': traceback.format_exc(limit=-10),
            'choices': [],
        }
        write_evidence(
            prop, tier, seed, module, clock.REAL[0]() - started, 1,
            {'states': 0, 'transitions': 0,
             'traces_validated_against_impl': 0, 'samples': [],
             'explanation': 'the code under test could not be loaded'})
        report(prop, record)
        return 1

    if args.scenario:
        scenarios = [s for s in scenarios if args.scenario in s.name]

    if args.replay:
        data = json.loads(pathlib.Path(args.replay).read_text())
        scenario = [s for s in scenarios if s.name == data['scenario']][0]
        runs = []
        for _ in range(2):
            ch, record = engine.execute(scenario, tuple(data['choices']))
            runs.append((record or {}).get('key'))
        for label, option in ch.describe():
            print('  {} = {}'.format(label, option))
        if runs[0] != runs[1]:
            raise engine.EngineError('not reproducible: {}'.format(runs))
        if record:
            print('VIOLATION property={} replay={}'.format(
                prop, args.replay))
            print(record['message'])
            return 1
        print('no violation')
        return 0

    findings = known_findings(prop)
    listed = {f['key']: f for f in findings}
    engine.KNOWN.update(listed)
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    # an answer before the time for one is over; what it leaves out is said
    # in the evidence
    deadline = started + BUDGET_S if tier == 'quick' else None
    errors = []
    stats = engine.run_parallel(
        scenarios, jobs, deadline, errors)
    if errors and hasattr(module, 'fallback') \
            and not any(s.violations for s in stats.values()):
        print('once more, with isolated executions: ' + errors[0][-600:])
        errors = []
        scenarios = module.fallback(tier)
        stats = engine.run_parallel(scenarios, jobs, deadline, errors)
    if errors and not any(s.violations for s in stats.values()):
        raise engine.EngineError('\n'.join(errors))

    bad = []
    seen_known = set()
    per_scenario = {}
    total = engine.Stats()
    for scenario in scenarios:
        stat = stats[scenario.name]
        per_scenario[scenario.name] = {
            'executions': stat.executions,
            'implementation_calls': stat.transitions,
            'comparisons_with_model': stat.compared,
            'choice_points': stat.choice_points,
            'max_choice_depth': stat.max_depth,
            'deviation_bound': scenario.bound,
            'distinct_outcomes': len(stat.states),
            'completed': not stat.capped,
        }
        if stat.extra:
            per_scenario[scenario.name].update(stat.extra)
        for key, record in stat.violations.items():
            if key in listed:
                seen_known.add(key)
            else:
                bad.append(record)
        for sample in stat.samples:
            if len(total.samples) < 8:
                total.samples.append(sample)
        stat.samples = []
        stat.violations = {}
        total.merge(stat)
    for finding in findings:
        print('KNOWN-FINDING: property={} {}{}'.format(
            prop, finding['what'],
            '' if finding['key'] in seen_known else ' (not seen)'))
    wall = clock.REAL[0]() - started
    coverage = {
        'states': len(total.states),
        'transitions': total.transitions,
        'traces_validated_against_impl': total.executions,
        'comparisons_with_model': total.compared,
        'samples': total.samples,
        'exhaustive': not total.capped,
        'scenarios': per_scenario,
        'explanation':
            'states: distinct observed outcomes of complete executions; '
            'transitions: calls into the implementation; traces: complete '
            'executions of the real code, each compared with the reference '
            'model; every choice tree named in scenarios was exhausted '
            'within its deviation bound unless completed is false',
    }
    write_evidence(prop, tier, seed, module, wall, len(bad), coverage)
    for record in sorted(bad, key=lambda r: len(r['choices'])):
        report(prop, record)
    print('{} {}: {} executions, {} states, {} transitions, {} comparisons,'
          ' {:.1f}s: {}'.format(
              prop, tier, total.executions, len(total.states),
              total.transitions, total.compared, wall,
              'VIOLATED' if bad else 'held'
              if not total.capped else 'held on what was explored in time'))
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        CODE = main()
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        CODE = 2
    sys.stdout.flush()
    sys.exit(CODE)
