#!/usr/bin/env python3
"""run.py <property>: decides one property of /repo; see DESIGN.md.

 1. proof: the goals of the property (vc/goals.py) are generated from /repo's current source and discharged by z3;
 2. contract monitoring: the same executable contracts are evaluated next to the real code on generated cases
    (bounded; the stand-in for every goal the verifier does not decide, and the source of concrete witnesses).
Exit 0: held. Exit 1 and a VIOLATION line: broken."""
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import goalsets

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/venv-pypy/bin/python'
PYVT = '/opt/veriftools/pyvenv/bin/python3'
CASES = {}
for _i in list(range(1, 13)):
    CASES['C%02d' % _i] = 'cases:c%02d' % _i
for _i in list(range(13, 22)) + [26, 27]:
    CASES['C%02d' % _i] = 'cases2:c%02d' % _i
for _i in (22, 23, 24, 28):
    CASES['C%02d' % _i] = 'cases3:c%02d' % _i
LEVEL = goalsets.LEVEL
# local time of the workers
ZONES = ('UTC', 'EST5', 'UTC', 'IST-5:30')

def environment():
    env = {'HOME': '/root', 'LANG': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONPYCACHEPREFIX': '/nonexistent', 'PYTHONHASHSEED': '0', 'PATH': os.environ.get('PATH', '/usr/bin:/bin')}
    if 'VERIF_REPO' in os.environ:
        env['VERIF_REPO'] = os.environ['VERIF_REPO']
    return env

class Concrete(object):
    """the monitored contracts: several workers with different seeds"""

    def __init__(self, pid, seed, workers, seconds, scratch):
        self.pid, self.seconds, self.jobs = pid, seconds, []
        for w in range(workers):
            out = os.path.join(scratch, 'w%d.json' % w)
            self.jobs.append((self.start(CASES[pid], '%d.%d' % (seed, w), seconds, 10 ** 9, out, 0, ZONES[w % len(ZONES)]), out))

    @staticmethod
    def start(case, seed, seconds, limit, out, first, zone='UTC'):
        cmd = [PYPY, '-W', 'ignore', os.path.join(HERE, 'concrete/worker.py'), case, str(seed), str(seconds),
            str(limit), out, str(first)]
        return subprocess.Popen(cmd, cwd=HERE, env=dict(environment(), TZ=zone), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def finish(self):
        r = {'cases': 0, 'calls': 0, 'distinct': 0, 'samples': [], 'failures': [], 'errors': [], 'crashed': 0}
        hashes = set()
        deadline = time.time() + self.seconds * 3 + 60
        for p, out in self.jobs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            try:
                with open(out) as f:
                    d = json.load(f)
            except (OSError, ValueError):
                r['crashed'] += 1
                continue
            for k in ('cases', 'calls'):
                r[k] += d.get(k, 0)
            hashes.update(d['hashes'])
            r['samples'] += d['samples'][:1]
            if d['failure']:
                r['failures'].append(d['failure'])
            if d['error']:
                r['errors'].append(d['error'])
        r['distinct'] = len(hashes)
        r['samples'] = r['samples'][:4]
        return r

def again(failure, scratch):
    """whether a failing case fails again in a fresh process (by itself, or after the cases before it)"""
    out = os.path.join(scratch, 'again.json')
    for first, limit in ((failure['index'], 1), (0, failure['index'] + 1)):
        p = Concrete.start(failure['case'], failure['seed'], 120, limit, out, first,
            failure.get('zone', 'UTC'))
        try:
            p.wait(200)
            with open(out) as f:
                d = json.load(f)
        except (subprocess.TimeoutExpired, OSError, ValueError):
            p.kill()
            continue
        if d['failure']:
            return d['failure']
    return None

def prove(pid, tier, scratch):
    """the outcome of the proof goals of the property: generated from the source, discharged by z3"""
    names = goalsets.GOALS.get(pid)
    if not names:
        return None
    out = os.path.join(scratch, 'proof.json')
    deadline, timeout = (240, 4000) if tier == 'quick' else (700, 20000)
    cmd = [PYVT, '-W', 'ignore', '-m', 'vc.main', ','.join(names), out, str(deadline), str(timeout)]
    t0, result = time.time(), None
    p = subprocess.Popen(cmd, cwd=HERE, env=environment(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
        start_new_session=True)
    try:
        p.wait(deadline + 40)
        with open(out) as f:
            result = json.load(f)
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        result = {'goals': [], 'error': repr(e)}
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    result['wall'] = round(time.time() - t0, 1)
    result['cmd'] = 'cd /verif && python3-vt -m vc.main %s OUT.json %d %d' % (','.join(names), deadline, timeout)
    have = {g['goal']: g for g in result['goals']}
    result['goals'] = [have.get(n) or {'goal': n, 'status': 'undecided', 'unsupported': 'no result', 'obligations': 0,
        'discharged': 0, 'failed': [], 'functions': [], 'assumptions': [], 'solver_time': 0, 'queries': 0, 'paths': 0,
        'covered': [], 'labels': {}} for n in names]
    return result

def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return check(pid, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

TRUSTED = [
    'vc/: the symbolic interpreter of the Python subset, the models of the standard library functions the code calls '
    '(vc/models.py) and the loop rule (vc/loops.py), checked only by tests against planted bugs',
    'z3 %s' % '(python3-vt)',
    'contracts/: the executable contracts say what the property means',
    'child fields and user supplied callables are known by their contracts alone (vc/world.py); the children are '
    'themselves under the contract of their type (structural induction over schemas)',
    'integers are mathematical (as in Python), floats are abstract ordered values; the source is read by CPython 3.12, '
    'the code runs on PyPy 3.9',
]

def search(pid, seed, workers, seconds, scratch):
    """-> (summary of the monitored runs, first confirmed failure, unconfirmed ones)"""
    conc = Concrete(pid, seed, workers, seconds, scratch).finish()
    unconfirmed = []
    for f in conc['failures']:
        g = again(f, scratch)
        if g is not None:
            return conc, g, unconfirmed
        unconfirmed.append(f)
    return conc, None, unconfirmed

def check(pid, seed, tier, scratch, t0):
    proof = prove(pid, tier, scratch)
    goals = proof['goals'] if proof else []
    refuted = [g for g in goals if g['status'] == 'refuted']
    proved = [g for g in goals if g['status'] == 'proved']
    undecided = [g for g in goals if g not in refuted and g not in proved]
    seconds = {'quick': 20, 'thorough': 150}[tier if tier in ('quick', 'thorough') else 'quick']
    if goals and not refuted and not undecided and tier == 'quick':
        seconds = 12
    conc, failure, unconfirmed = search(pid, seed, 8, seconds, scratch)
    if refuted and failure is None:
        # look longer for an input that shows what the verifier found
        more, failure, unconf = search(pid, seed + 7919, 8, 60, scratch)
        unconfirmed += unconf
        for k in ('cases', 'calls', 'distinct', 'crashed'):
            conc[k] += more[k]
        conc['errors'] += more['errors']
    known = findings(pid)
    violation, tail = None, ''
    if failure is not None:
        violation = dict(failure)
        if refuted:
            violation['failed_obligations'] = [{'goal': g['goal'], 'failed': g['failed'][:3]} for g in refuted]
    elif refuted:
        violation = {'property': pid, 'failed_obligations': [{'goal': g['goal'], 'obligation': g['failed'][0]['obligation']
            if g['failed'] else 'the goal states no obligation', 'verifier': g['failed']} for g in refuted],
            'rerun': proof['cmd'], 'note': 'no failing input found by %d monitored cases' % conc['cases']}
        tail = ' no-failing-input-found'
    monitored = {
        'evaluations': conc['cases'], 'distinct_nontrivial': conc['distinct'],
        'rule': 'a case is a generated schema and values or operations on it, run through the real code of /repo and '
            'through the executable contract; distinct and non-trivial: the schema together with the last call of '
            'the real code differ from those of every other case, and the real code was called at all',
        'samples': conc['samples'] or ['none'],
        'calls_of_the_real_code': conc['calls'], 'oracle_errors': len(conc['errors']),
        'unconfirmed': len(unconfirmed), 'workers_without_result': conc['crashed'],
    }
    level = LEVEL.get(pid, 'exploration')
    coverage = dict(monitored)
    assumptions = ['bounded stand-in: the monitored cases are a sample (stated seed and time); they claim nothing about '
        'other inputs and count as no proof']
    if goals:
        coverage.update({
            'obligations': sum(g['obligations'] for g in goals if g not in undecided),
            'discharged': sum(g['discharged'] for g in goals if g not in undecided),
            'checker_cmd': proof['cmd'], 'trusted_base': TRUSTED,
            'back_end': 'z3 (quantifier-free, universal facts instantiated by the generator)',
            'goals': [{k: g[k] for k in ('goal', 'status', 'obligations', 'discharged', 'paths', 'queries', 'solver_time',
                'labels', 'unsupported')} for g in goals],
            'goals_undecided_now': [g['goal'] for g in undecided],
            'functions_under_contract': sorted(set(f for g in proved for f in g['functions'])),
            'solver_time_s': round(sum(g['solver_time'] for g in goals), 1),
            'proof_wall_s': proof['wall'], 'proof_error': proof['error'],
            'bounded_stand_in_for': goalsets.BOUNDED.get(pid, []) + [g['goal'] for g in undecided],
        })
        assumptions += sorted(set(a for g in goals for a in g['assumptions']))
        if not proved:
            level = 'exploration'
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for line in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, line))
    for g in goals:
        print('%s %s: %d/%d obligations, %d paths%s' % (g['goal'], g['status'], g['discharged'], g['obligations'], g['paths'],
            ', ' + g['unsupported'] if g['unsupported'] else ''))
    if violation:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', pid + '.json')
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        print(json.dumps(violation, indent=1)[:4000])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
        return 1
    print('%s held: %d goals proved, %d undecided; monitored: %d cases, %d distinct; %.1f s' % (pid, len(proved),
        len(undecided), conc['cases'], conc['distinct'], time.time() - t0))
    return 0

def findings(pid):
    """the listed findings of a property that remain in the code"""
    r = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % pid):
                    r.append(line.split(' ', 2)[2].strip())
    except OSError:
        pass
    if r:
        p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'concrete/known.py'), pid], cwd=HERE, env=environment(),
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode != 0:
            return []
    return r

if __name__ == '__main__':
    sys.exit(main())
