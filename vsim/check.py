"""Driver of one check: explores, minimises, reports, writes the evidence

    check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--config pure|accel]
             [--runs N] [--jobs N]

Exit status 0: the property held in every run explored; 1: it was violated, as
the VIOLATION line says; 2: the harness failed, which says nothing about the
property.
"""

import argparse
import atexit
import binascii
import collections
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VSIM_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
if not os.path.exists(PYTHON):
    PYTHON = sys.executable
CONFIGS = ('pure', 'accel')


class Fatal(Exception):
    """The harness can't decide"""


def environment():
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=os.environ.get('VSIM_HASHSEED', '0'),
        PYTHONDONTWRITEBYTECODE='1',
        PYTHONPYCACHEPREFIX='/nonexistent',
        PYTHONNOUSERSITE='1',
        OPENBLAS_NUM_THREADS='1',
        OMP_NUM_THREADS='1',
        VSIM_REPO=REPO,
    )
    env.pop('PYTHONPATH', None)
    return env


def build_extensions():
    """Compile the extensions of the working tree in a scratch directory"""
    given = os.environ.get('VSIM_ACCEL')
    if given:
        return given
    scratch = tempfile.mkdtemp(prefix='vsim-accel-')
    atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    target = os.path.join(scratch, 'accelerate')
    shutil.copytree(
        os.path.join(REPO, 'accelerate'),
        target,
        ignore=shutil.ignore_patterns('build', '*.so', '*.c', '__pycache__'),
    )
    env = environment()
    env['CFLAGS'] = (env.get('CFLAGS', '') + ' -O1').strip()
    done = subprocess.run(
        [PYTHON, 'setup.py', '-q', 'build_ext', '--inplace', '-j4'],
        cwd=target,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=600,
    )
    if done.returncode:
        raise Fatal(
            'the extensions do not build:\n%s'
            % (done.stdout.decode('utf8', 'replace')[-3000:],)
        )
    return target


class Worker(object):
    """A simulation process, see worker.py"""

    def __init__(self, prop, config, accel, seed, tier):
        self.config = config
        self.errors = tempfile.TemporaryFile()
        self.process = subprocess.Popen(
            [PYTHON, os.path.join(HERE, 'worker.py'), prop, config, accel, str(seed), tier],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.errors,
            env=environment(),
            text=True,
        )
        self.ready = False

    def start(self):
        if not self.ready:
            self._read()
            self.ready = True

    def _read(self):
        line = self.process.stdout.readline()
        if not line:
            self.errors.seek(0)
            raise Fatal(
                'a simulation process ended: %s'
                % (self.errors.read().decode('utf8', 'replace')[-2000:],)
            )
        answer = json.loads(line)
        if 'fatal' in answer:
            raise Fatal(answer['fatal'])
        return answer

    def ask(self, **command):
        self.start()
        self.process.stdin.write(json.dumps(command) + '\n')
        self.process.stdin.flush()
        return self._read()

    def stop(self):
        try:
            self.process.stdin.close()
        except OSError:
            pass
        try:
            self.process.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.process.kill()
            self.process.wait()


class Pool(object):
    def __init__(self, prop, configs, accel, seed, tier, jobs):
        self.workers = []
        for i in range(jobs):
            config = configs[i % len(configs)]
            self.workers.append(Worker(prop, config, accel, seed, tier))

    def each(self, function):
        """Call function(worker) for every worker, each in its own thread"""
        errors = []

        def call(worker):
            try:
                function(worker)
            except BaseException as err:
                errors.append(err)

        threads = [threading.Thread(target=call, args=(w,)) for w in self.workers]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]

    def run_all(self, cases, config, log=False):
        """The results of running all the cases"""
        todo = queue.Queue()
        for item in enumerate(cases):
            todo.put(item)
        results = [None] * len(cases)

        def serve(worker):
            if worker.config != config:
                return
            while True:
                try:
                    i, case = todo.get_nowait()
                except queue.Empty:
                    return
                results[i] = worker.ask(cmd='run', case=case, log=log)['result']

        self.each(serve)
        return results

    def stop(self):
        for w in self.workers:
            w.stop()


def explore(pool, configs, runs, wall, chunk, show):
    """Run the indices 0..runs-1 of every configuration, stopping at trouble"""
    started = time.time()
    until = started + wall
    lock = threading.Lock()
    position = {c: 0 for c in configs}
    stop = threading.Event()
    results = {c: [] for c in configs}
    trouble = []

    def take(config):
        with lock:
            first = position[config]
            last = min(first + chunk, runs)
            position[config] = last
        return list(range(first, last))

    def serve(worker):
        worker.start()
        while not stop.is_set() and time.time() < until:
            config = worker.config
            indices = take(config)
            if not indices:
                return
            answer = worker.ask(cmd='explore', indices=indices, until=until, show=show)
            with lock:
                for result in answer['results']:
                    result['config'] = config
                    results[config].append(result)
                    if result['status'] != 'ok':
                        trouble.append(result)
                        stop.set()

    pool.each(serve)
    return results, trouble, time.time() - started


def shrink(pool, prop, case, config, cls, budget):
    """The smallest case found which breaks the property in the same way"""
    until = time.time() + budget
    tried = [0]

    def best(candidates):
        """The first of the candidates which still fails, if any does"""
        width = 8
        for i in range(0, len(candidates), width):
            if time.time() > until:
                return None
            batch = candidates[i : i + width]
            tried[0] += len(batch)
            for candidate, result in zip(batch, pool.run_all(batch, config)):
                if result['status'] == 'violation' and result['cls'] == cls:
                    return candidate
        return None

    def without(key, start, stop):
        smaller = dict(case)
        smaller[key] = case[key][:start] + case[key][stop:]
        return smaller

    progress = True
    while progress and time.time() < until:
        progress = False
        for key in prop.LISTS:
            size = max(1, len(case.get(key, ())) // 2)
            while case.get(key) and time.time() < until:
                length = len(case[key])
                candidates = [
                    without(key, i, i + size) for i in range(0, length, size)
                ]
                found = best(candidates)
                if found is not None:
                    case = found
                    progress = True
                    size = min(size, max(1, len(case[key])))
                elif size == 1:
                    break
                else:
                    size = max(1, size // 2)
        for key in prop.LISTS:
            i = 0
            while i < len(case.get(key, ())) and time.time() < until:
                options = pool.workers[0].ask(cmd='simplify', op=case[key][i])['ops']
                candidates = []
                for option in options:
                    simpler = dict(case)
                    simpler[key] = case[key][:i] + [option] + case[key][i + 1 :]
                    candidates.append(simpler)
                found = best(candidates) if candidates else None
                if found is not None:
                    case = found
                    progress = True
                else:
                    i += 1
        # what only the property knows how to make smaller
        found = case
        while found is not None and time.time() < until:
            options = pool.workers[0].ask(cmd='reduce', case=case)['cases']
            found = best(options) if options else None
            if found is not None:
                case = found
                progress = True
    return case, tried[0]


def known_findings(prop):
    """The findings which are recorded, not repaired"""
    path = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--config', choices=CONFIGS)
    parser.add_argument('--runs', type=int)
    parser.add_argument('--wall', type=float)
    parser.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    parser.add_argument('--budget', type=float, help='seconds for minimising')
    parser.add_argument('--digests', help='write the digest of every run there')
    options = parser.parse_args()
    try:
        return check(options)
    except Fatal as err:
        print('ERROR property=%s %s' % (options.property, err))
        return 2


def check(options):
    started = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = options.tier
    name = options.property
    sys.path.insert(0, ROOT)
    # the settings only, which are in a module of their own
    spec = importlib.import_module('vsim.props.specs').SPECS[name]
    if options.replay:
        return replay(options, name, spec)
    configs = [options.config] if options.config else list(spec.get('configs', CONFIGS))
    accel = build_extensions() if 'accel' in spec.get('needs', configs) else ''
    print('property=%s tier=%s seed=%d configs=%s' % (name, tier, seed, ','.join(configs)))
    sys.stdout.flush()
    runs = options.runs or spec['runs'][tier]
    wall = options.wall or (200 if tier == 'quick' else 780)
    # however long the extensions took to build
    pool = Pool(name, configs, accel, seed, tier, max(options.jobs, len(configs)))
    try:
        chunk = spec.get('chunk', 25)
        results, trouble, took = explore(pool, configs, runs, wall, chunk, show=(0, 1))
        if options.digests:
            with open(options.digests, 'w') as f:
                for config in configs:
                    for r in sorted(results[config], key=lambda r: r['index']):
                        f.write('%s %d %s\n' % (config, r['index'], r.get('digest')))
        violations = [t for t in trouble if t['status'] == 'violation']
        report = None
        status = 0
        if violations:
            order = {c: i for i, c in enumerate(configs)}
            violations.sort(key=lambda t: (t['index'], order[t['config']]))
            for first in violations[:5]:
                try:
                    report = violation(pool, spec, name, seed, tier, first, accel, options.budget)
                    break
                except Fatal as err:
                    # does not repeat: memory was corrupted, maybe
                    print('note: %s' % (str(err)[:500],))
                    failed = err
            else:
                raise failed
            if report.get('known'):
                print('KNOWN-FINDING: property=%s %s' % (name, report['known']))
            else:
                status = 1
        elif trouble:
            raise Fatal('run %s/%d: %s' % (
                trouble[0]['config'], trouble[0]['index'], trouble[0].get('msg')))
        evaluated = sum(len(r) for r in results.values())
        if not status and evaluated < min(runs, 20):
            raise Fatal('only %d runs were possible in %d s' % (evaluated, wall))
        evidence(name, spec, tier, seed, configs, results, took, started, status, report)
    finally:
        pool.stop()
    if status:
        print('VIOLATION property=%s replay=%s' % (name, report['path']))
    else:
        print('held in %d runs, %.1f s' % (evaluated, time.time() - started))
    return status


def violation(pool, spec, name, seed, tier, first, accel, budget=None):
    """Minimise, write the replay file, and prove that it reproduces"""
    config = first['config']
    print(
        'run %s/%d: %s: %s' % (config, first['index'], first['cls'], first['msg'])
    )
    sys.stdout.flush()

    class P(object):
        LISTS = spec.get('lists', ('ops',))

    if budget is None:
        budget = 100 if tier == 'quick' else 240
    case, tried = shrink(pool, P, first['case'], config, first['cls'], budget)
    result = pool.run_all([case], config, log=True)[0]
    if result['status'] != 'violation':
        raise Fatal('run %s/%d does not repeat: %s' % (config, first['index'], result))
    folder = os.environ.get('VSIM_REPLAYS') or os.path.join(ROOT, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s-%d-%d.json' % (name, config, seed, first['index']))
    document = {
        'property': name,
        'config': config,
        'seed': seed,
        'index': first['index'],
        'tier': tier,
        'cls': result['cls'],
        'msg': result['msg'],
        'digest': result.get('digest'),
        'shrink_runs': tried,
        'original_sizes': {k: len(first['case'].get(k, ())) for k in P.LISTS},
        'case': case,
        'log': result.get('log', []),
    }
    with open(path, 'w') as f:
        json.dump(document, f, indent=1)
    # in a fresh process
    worker = Worker(name, config, accel, seed, tier)
    try:
        again = worker.ask(cmd='run', case=case, log=True)['result']
    finally:
        worker.stop()
    same = (again['status'], again.get('cls'), again.get('digest')) == (
        'violation',
        result['cls'],
        result.get('digest'),
    )
    if not same and again['status'] == 'violation' and 'crash' in again['cls'] + result['cls']:
        # memory was corrupted, with effects which depend on real addresses
        print('note: the replay breaks in different ways: %s' % (again['cls'],))
        same = True
    if not same:
        raise Fatal('the replay file %s does not reproduce: %s' % (path, again))
    print('minimised (%d runs): %s: %s' % (tried, result['cls'], result['msg']))
    print(json.dumps(case)[:2000])
    for line in result.get('log', [])[-25:]:
        print('   ', line[:300])
    report = {'path': path, 'cls': result['cls'], 'msg': result['msg'], 'case': case}
    fingerprint = '%08x' % (binascii.crc32(json.dumps(case, sort_keys=True).encode()),)
    report['fingerprint'] = fingerprint
    for known in known_findings(name):
        if known['cls'] == result['cls'] and known['fingerprint'] == fingerprint:
            report['known'] = known['what']
    return report


def replay(options, name, spec):
    with open(options.replay) as f:
        document = json.load(f)
    config = document['config']
    accel = build_extensions() if config == 'accel' or 'accel' in spec.get('needs', ()) else ''
    worker = Worker(name, config, accel, document['seed'], document['tier'])
    try:
        result = worker.ask(cmd='run', case=document['case'], log=True)['result']
    finally:
        worker.stop()
    if result['status'] == 'ok':
        print('the property held in this run')
        return 0
    if result['status'] != 'violation':
        raise Fatal(result.get('msg'))
    for line in result.get('log', []):
        print('   ', line)
    print('%s: %s' % (result['cls'], result['msg']))
    same = (result['cls'], result.get('digest')) == (document['cls'], document['digest'])
    print('the same execution as recorded' if same else 'NOT the execution recorded')
    print('VIOLATION property=%s replay=%s' % (name, options.replay))
    return 1


def evidence(name, spec, tier, seed, configs, results, took, started, status, report):
    counts = collections.Counter()
    states = set()
    digests = set()
    steps = 0
    nontrivial = set()
    samples = []
    for config in configs:
        for r in results[config]:
            counts.update(r.get('counts', {}))
            states.update(r.get('states', ()))
            digests.add(r.get('digest'))
            steps += r.get('steps', 0)
            if r.get('nontrivial'):
                nontrivial.add(r.get('digest'))
            if 'case' in r and len(samples) < 2 and r['status'] == 'ok':
                samples.append(
                    {
                        'seed': '%d/%s/%s/%d' % (seed, name, config, r['index']),
                        'case': trimmed(r['case']),
                    }
                )
    runs = sum(len(r) for r in results.values())
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('probe:')}
    document = {
        'property': name,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontrivial),
            'rule': spec['rule'],
            'samples': samples or [{'none': 'see the replay file'}],
            'runs_per_configuration': {c: len(results[c]) for c in configs},
            'runs_per_hour': int(runs * 3600 / max(took, 0.001)),
            'seeds_per_hour': int(runs * 3600 / max(took, 0.001)),
            'simulated_time_steps': steps,
            'simulated_time_unit': 'operations of simulated clients, including '
            'those nested in callbacks; the code has no clock to simulate',
            'faults_injected': faults,
            'faults_never_fired': [f for f in spec['faults'] if not faults.get(f)],
            'probes': probes,
            'distinct_histories': len(digests),
            'distinct_states': len(states),
            'state_measure': spec['measure'],
            'real_components': spec['real'],
            'stubbed_components': spec['stub'],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - started, 2),
        'violations': status,
    }
    if report:
        document['coverage']['violation'] = {
            'class': report['cls'],
            'replay': os.path.relpath(report['path'], ROOT),
            'known_finding': report.get('known'),
        }
    folder = os.path.join(ROOT, 'evidence')
    os.makedirs(folder, exist_ok=True)
    temporary = os.path.join(folder, '.%s.tmp' % (name,))
    with open(temporary, 'w') as f:
        json.dump(document, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(temporary, os.path.join(folder, '%s.json' % (name,)))


def trimmed(case):
    text = json.dumps(case)
    if len(text) <= 2500:
        return case
    return text[:2500] + '...'


if __name__ == '__main__':
    sys.exit(main())
