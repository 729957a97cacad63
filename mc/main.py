"""command line of the model checker"""
import importlib
import json
import os
import shutil
import sys
import time
import traceback

import matplotlib.pyplot
import numpy
import pandas
import scipy.integrate
import scipy.interpolate
import scipy.special
import yaml

from mc import explore

# never use stale byte code of the code under test
sys.pycache_prefix = os.environ['MC_PYC']

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
BUDGET = {'quick': 600.0, 'thorough': 6 * 3600.0}


def load(prop):
    return importlib.import_module('mc.props.' + prop.lower())


def write_replay(prop, tier, entry):
    folder = os.path.join(EVIDENCE, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '{}-{}.json'.format(prop, tier))
    with open(path, 'w') as fpt:
        json.dump(dict(entry, property=prop, tier=tier), fpt, indent=1,
                  default=repr)
    return path


def write_evidence(prop, tier, started, coverage, assumptions, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    record = {'property': prop, 'tier': tier,
              'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
              'level': 'model_checking', 'coverage': coverage,
              'assumptions': assumptions,
              'wall_s': round(time.time() - started, 3),
              'violations': violations}
    path = os.path.join(EVIDENCE, prop + '.json')
    with open(path + '.tmp{}'.format(os.getpid()), 'w') as fpt:
        json.dump(record, fpt, indent=1, default=repr)
    os.replace(path + '.tmp{}'.format(os.getpid()), path)


def known_findings(prop):
    """scenario/decision texts recorded as genuine, unrepaired defects"""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        with open(path) as fpt:
            for line in fpt:
                if line.startswith('finding: property=' + prop + ' '):
                    out.append(json.loads(line.split(' ', 2)[2]))
    return out


def is_known(finding, entry):
    return (finding['scenario'] == entry['scenario'] and
            all(dec in entry['decisions'] for dec in finding['decisions']))


def check(prop, tier):
    started = time.time()
    try:
        module = load(prop)
    except Exception:
        # the reference code has no way to fail here: the package does
        text = traceback.format_exc()
        path = write_replay(prop, tier, {'scenario': 'import', 'choices': [],
                                         'message': text})
        write_evidence(prop, tier, started,
                       {'states': 0, 'transitions': 0, 'samples': ['import'],
                        'traces_validated_against_impl': 0}, [], 1)
        print(text)
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    scenarios = module.SCENARIOS
    only = os.environ.get('MC_SCENARIO')
    if only:
        scenarios = {k: v for k, v in scenarios.items() if k in only.split(',')}
    deadline = started + float(os.environ.get('MC_BUDGET', 0) or BUDGET[tier])

    # cut the scenarios into shards (in children: the parent stays clean)
    shards, errors = {}, []

    def got_shards(key, result, status):
        if isinstance(result, list):
            shards[key] = result
        else:
            errors.append((key, [], result, status))
    target = getattr(module, 'SHARDS', 64)
    explore.run_pool(
        [(name, lambda f=func: explore.expand(f, tier, target))
         for name, func in scenarios.items()],
        WORKERS, got_shards, lambda: False)

    total = {'executions': 0, 'pruned': 0, 'ops': 0, 'capped': False}
    states, outcomes, violations, samples = {}, {}, [], []
    per_scenario = {}

    def got_result(key, result, status):
        name, prefix = key
        if not isinstance(result, dict) or 'error' in result:
            errors.append((name, prefix, result, status))
            return
        for field in ('executions', 'pruned', 'ops'):
            total[field] += result[field]
        total['capped'] = total['capped'] or result['capped']
        states.setdefault(name, set()).update(result['states'])
        outcomes.setdefault(name, set()).update(result['outcomes'])
        per_scenario[name] = per_scenario.get(name, 0) + result['executions']
        if len([s for s in samples if s['scenario'] == name]) < 1:
            samples.extend({'scenario': name, 'decisions': s}
                           for s in result['samples'])
        for vio in result['violations']:
            violations.append(dict(vio, scenario=name, shard=prefix))

    known = known_findings(prop)

    def unknown():
        return [v for v in violations
                if not any(is_known(k, v) for k in known)]

    tasks = []
    for name, func in scenarios.items():
        for prefix in shards.get(name, []):
            tasks.append(((name, prefix),
                          lambda n=name, f=func, p=prefix: explore.explore_shard(
                              n, f, p, tier, deadline,
                              max_violations=3 if not known else 10**9)))
    explore.run_pool(tasks, WORKERS, got_result,
                     lambda: len(unknown()) >= 1 or time.time() > deadline)
    if time.time() > deadline:
        total['capped'] = True

    for name, prefix, result, status in errors:
        violations.append({'scenario': name, 'shard': prefix,
                           'choices': prefix, 'decisions': [],
                           'message': "process ended abnormally: status {} {}"
                                      .format(status, result)})
    coverage = {
        'states': sum(len(s) for s in states.values()),
        'transitions': total['ops'],
        'traces_validated_against_impl': total['executions'],
        'pruned': total['pruned'],
        'distinct_outcomes': sum(len(s) for s in outcomes.values()),
        'scenarios': per_scenario,
        'shards': len(tasks),
        'exhaustive': not total['capped'] and not violations,
        'bounds': getattr(module, 'BOUNDS', {}).get(tier, ''),
        'samples': samples[:6],
        'how': ('every trace is an execution of the code in {} compared '
                'step by step with the reference model'
                .format(os.environ['MC_REPO'])),
    }
    new = sorted(unknown(), key=lambda v: (len(v['choices']), v['choices']))
    write_evidence(prop, tier, started, coverage,
                   getattr(module, 'ASSUMPTIONS', []), len(new))
    for finding in known:
        if any(is_known(finding, v) for v in violations):
            print("KNOWN-FINDING: property={} {}".format(prop, finding['what']))
    print("{} {}: {} executions, {} operations, {} states, {} outcomes, "
          "{:.1f} s{}".format(prop, tier, total['executions'], total['ops'],
                              coverage['states'], coverage['distinct_outcomes'],
                              time.time() - started,
                              ' (capped)' if total['capped'] else ''))
    if new:
        first = new[0]
        path = write_replay(prop, tier, first)
        print("scenario {}".format(first['scenario']))
        for line in first['decisions']:
            print("   " + line)
        print("   -> " + first['message'])
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    empty = [name for name in scenarios if not per_scenario.get(name)]
    if empty and not total['capped']:
        print("nothing was executed for " + ", ".join(empty))
        return 2
    return 0


def replay(path):
    with open(path) as fpt:
        entry = json.load(fpt)
    module = load(entry['property'])
    func = module.SCENARIOS[entry['scenario']]
    found = []

    def got(key, result, status):
        if isinstance(result, dict) and result.get('violations'):
            found.append((key, result['violations'][-1]))
        elif not isinstance(result, dict):
            found.append((key, {'message': 'process ended', 'decisions': []}))
    tier = entry['tier']
    far = time.time() + 3600
    explore.run_pool(
        [('alone', lambda: explore.explore_shard(
            entry['scenario'], func, entry['choices'], tier, far))], 1, got,
        lambda: False)
    if not found:
        explore.run_pool(
            [('with history', lambda: explore.explore_shard(
                entry['scenario'], func, entry['shard'], tier, far,
                until=entry['choices']))], 1, got, lambda: False)
    for how, vio in found:
        print("reproduced ({})".format(how))
        for line in vio['decisions']:
            print("   " + line)
        print("   -> " + vio['message'])
    if not found:
        print("not reproduced")
    return 1 if found else 0


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(prop, tier)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    shutil.rmtree(os.environ['MC_SCRATCH'], ignore_errors=True)
    os._exit(code)
