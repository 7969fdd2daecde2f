"""
Self-test: does each check report the defect again if its repair is undone?

  reverts.py OUT.jsonl      undoes each "fix:" commit of /repo, in a copy, and
                            runs its property's check; with --corpus, also
                            adds the minimal failing case to corpus/<ID>.jsonl
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/reverts'


def main():
    out = sys.argv[1]
    seen = set()
    if os.path.exists(out):
        seen = {json.loads(line)['commit'] for line in open(out)}
    fixed = re.findall(r'^fixed: property=(\w+) (\w+) (.*)$',
                       open(os.path.join(HERE, 'known-findings.txt')).read(),
                       re.M)
    for pid, commit, what in fixed:
        if commit in seen:
            continue
        shutil.rmtree(WORK, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', WORK])
        p = subprocess.run(['git', 'revert', '-n', commit], cwd=WORK,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        row = dict(pid=pid, commit=commit, what=what)
        if p.returncode:
            row['result'] = 'conflict'
        else:
            r = subprocess.run(
                ['python3', os.path.join(HERE, 'run.py'), '--property', pid],
                cwd=WORK, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env=dict(os.environ, BIGGUS_REPO=WORK, VF_OUT=WORK + '/out'))
            row['result'] = r.returncode
            text = r.stdout.decode(errors='replace')
            row['text'] = text[-500:]
            m = re.search(r'replay=(\S+)', text)
            if m:
                row['case'] = json.load(open(m.group(1)))
        print(commit, pid, row['result'], what)
        sys.stdout.flush()
        with open(out, 'a') as f:
            f.write(json.dumps(row) + '\n')
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
