#!/usr/bin/env python3
"""
Runs the check of one property:

  run.py --property C01 [--tier quick|thorough] [--cases N] [--shards N]
  run.py --replay FILE

Exit 0: the property held on every case.  Exit 1 and a VIOLATION line: it did
not.  Anything else is an error of the check.
"""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VF_OUT', HERE)
DRIVER = os.path.join(HERE, 'vf', 'driver')
TOOLS_PYTHON = '/opt/veriftools/pyvenv/bin/python'

if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(TOOLS_PYTHON, [TOOLS_PYTHON] + sys.argv)

sys.path.insert(0, DRIVER)
from client import HarnessError, Worker  # noqa

SOFT = {'quick': 240.0, 'thorough': 3000.0}


def load_lines(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


def known_findings(pid):
    """Findings which are recorded, not repaired.

    The lines of the file are "known: <JSON of property, case and what>", and
    "fixed: property=<id> <commit> <what failed>", which suppress nothing.
    """
    out = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('known:'):
                entry = json.loads(line[len('known:'):])
                if entry['property'] == pid:
                    out.append(entry)
    return out


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def judge(worker, pid, case):
    verdict = worker.run(pid, case)
    if verdict.get('hang'):
        return 'hang'
    if verdict.get('died'):
        return 'the process died'
    if 'err' in verdict:
        raise HarnessError(verdict['err'])
    return None if verdict['ok'] else verdict['msg']


def judge_all(worker, pid, cases):
    """The verdict of the last case, after the others, in a new process."""
    worker.stop()
    for case in cases[:-1]:
        worker.run(pid, case)
    return judge(worker, pid, cases[-1])


def minimal_history(worker, pid, cases, limit=150):
    """
    The fewest cases found which make the last one fail, if anything does.

    A change can leave something behind in one case which breaks another.
    """
    start = time.time()
    n = 2
    while True:
        msg = judge_all(worker, pid, cases[-n:])
        if msg is not None:
            break
        if n >= len(cases) or time.time() - start > limit:
            return None
        n *= 4
    cases, last = cases[-n:-1], cases[-1]
    step = len(cases)
    while step and time.time() - start < limit:
        i = 0
        while i < len(cases) and time.time() - start < limit:
            fewer = cases[:i] + cases[i + step:]
            again = judge_all(worker, pid, fewer + [last])
            if again is not None:
                cases, msg = fewer, again
            else:
                i += step
        step //= 2
    return cases, last, msg


def record(pid, case, msg, history=()):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}.json'.format(pid, case_key(case)[:12]))
    with open(path, 'w') as f:
        rep = {'property': pid, 'case': case, 'message': msg}
        if history:
            # What must have been done before, in the same process.
            rep['history'] = history
        json.dump(rep, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    w = Worker()
    msg = judge_all(w, rep['property'],
                    rep.get('history', []) + [rep['case']])
    w.stop()
    if msg is None:
        print('the property holds for this case')
        return 0
    print(msg)
    print('VIOLATION property={} replay={}'.format(rep['property'], path))
    return 1


def run_shards(pid, n, cases, seed, soft):
    """Run the shards; returns their summaries."""
    scratch = tempfile.mkdtemp(prefix='vf-')
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1')
    procs = []
    try:
        for k in range(n):
            out = os.path.join(scratch, '%d.json' % k)
            procs.append((subprocess.Popen(
                [sys.executable, os.path.join(DRIVER, 'shard.py'), pid,
                 str(seed * 1000 + k), str(cases), str(soft), out],
                env=env, cwd=scratch, start_new_session=True), out))
        res, errors = {}, []
        pending = dict(enumerate(procs))
        grace = None
        while pending:
            time.sleep(0.05)
            for k, (p, out) in list(pending.items()):
                if p.poll() is None:
                    continue
                del pending[k]
                if not os.path.exists(out):
                    errors.append('shard %d ended with %s' % (k,
                                                              p.returncode))
                    continue
                with open(out) as f:
                    res[k] = json.load(f)
                if res[k]['failure'] and grace is None:
                    grace = time.time() + 5
            if grace is not None and time.time() > grace:
                # A failure is known and shrunk: enough.
                for k, (p, out) in pending.items():
                    kill(p)
                pending = {}
        return res, errors
    finally:
        for p, _ in procs:
            kill(p)
        shutil.rmtree(scratch, ignore_errors=True)


def kill(p):
    if p.poll() is None:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--shards', type=int, default=8)
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)

    from props import PROPS
    pid = args.property
    prop = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start = time.time()
    cases = args.cases or getattr(prop, args.tier)
    worker = Worker(hang_s=prop.hang_s)
    failure = None
    n_corpus = 0
    errors = []

    # Known findings: still present?
    known = known_findings(pid)
    known_keys = {case_key(e['case']) for e in known}
    for entry in known:
        if judge(worker, pid, entry['case']) is not None:
            print('KNOWN-FINDING: property={} {}'.format(pid, entry['what']))

    # Regressions: the minimal cases of past failures.
    for case in load_lines(os.path.join(HERE, 'corpus', pid + '.jsonl')):
        n_corpus += 1
        msg = judge(worker, pid, case)
        if msg is not None and case_key(case) not in known_keys:
            failure = (case, msg)
            break

    res = {}
    if failure is None:
        res, errs = run_shards(pid, args.shards, cases, seed,
                               SOFT[args.tier])
        errors += errs
    unconfirmed = []
    fails = sorted((r['failure'] + [r['history']] for r in res.values()
                    if r['failure']),
                   key=lambda f: len(json.dumps(f[0])))
    for case, msg, history in fails:
        if case_key(case) in known_keys:
            continue
        # Again, in a new process.
        worker.stop()
        again = judge(worker, pid, case)
        if again is None and msg in ('hang', 'the process died'):
            # A starved machine, perhaps: not evidence.
            unconfirmed.append(case)
            continue
        failure = (case, again or msg + ' (not on every run)')
        if again is None and len(history) > 1:
            found = minimal_history(worker, pid, history)
            if found is not None:
                failure = (found[1], found[2] + (
                    ' (after {} other cases)'.format(len(found[0]))
                    if found[0] else ''), found[0])
        break
    worker.stop()
    generator_errors = 0
    for r in res.values():
        errors += r['errors']
        generator_errors += r['generator_errors']
    if generator_errors * 50 > cases:
        errors += [r['generator_error'] for r in res.values()
                   if r['generator_error']]

    labels, keys, samples = {}, set(), []
    for k in sorted(res):
        r = res[k]
        keys.update(r['nontrivial'])
        samples += r['samples'][:1]
        for lab, n in r['labels'].items():
            labels[lab] = labels.get(lab, 0) + n
    evidence = {
        'property': pid, 'tier': args.tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': n_corpus + sum(r['evaluations']
                                          for r in res.values()),
            'distinct_nontrivial': len(keys),
            'rule': prop.rule,
            'samples': samples[:4] or [r[0] for r in fails[:1]],
            'classes': dict(sorted(labels.items())),
            'corpus': n_corpus,
            'shards': len(res),
            'skipped_for_time': sum(r['skipped'] for r in res.values()),
            'generator_errors': generator_errors,
            'unconfirmed_hangs': len(unconfirmed),
        },
        'assumptions': [
            'the NumPy reference evaluation in vf/worker/core.py is right',
            'behaviour outside the generated sizes and data types is '
            'represented by that within them'],
        'wall_s': round(time.time() - start, 2),
        'violations': 0 if failure is None else 1,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    path = os.path.join(OUT, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + '.tmp', path)

    print('{}: {} cases, {} distinct non-trivial, {:.0f} s'.format(
        pid, evidence['coverage']['evaluations'], len(keys),
        evidence['wall_s']))
    if failure is not None:
        print(failure[1])
        print('VIOLATION property={} replay={}'.format(
            pid, record(pid, *failure)))
        return 1
    if errors:
        print('ERROR: ' + '\n'.join(errors[:3]))
        return 2
    if len(keys) < 2:
        print('ERROR: hardly anything was explored')
        return 2
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except HarnessError as e:
        print('ERROR: %s' % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
