"""
Worker process: reads one JSON case per line on stdin, runs the named check
on the real biggus, and writes one JSON verdict per line.

verdict: {"ok": true, "nt": bool, "labels": [...]}           property held
         {"ok": false, "msg": "..."}                          violated
         {"err": "..."}                                       harness error
"""
import json
import os
import sys
import threading
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BIGGUS_REPO', '/repo')
sys.path.insert(0, REPO)

warnings.simplefilter('ignore')


def in_biggus(e):
    inside = os.path.join(os.path.realpath(REPO), 'biggus') + os.sep
    return any(os.path.realpath(frame.filename).startswith(inside)
               for frame in traceback.extract_tb(e.__traceback__))


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VF_STDERR'):
        os.dup2(devnull, 2)
    import numpy as np
    np.seterr(all='ignore')
    np.warnings.simplefilter('ignore')

    def say(obj):
        out.write(json.dumps(obj) + '\n')
        out.flush()

    try:
        import biggus
        assert os.path.realpath(biggus.__file__).startswith(
            os.path.realpath(REPO) + os.sep), biggus.__file__
        import core
        import checks
    except BaseException:
        say({'err': 'import failed: ' + traceback.format_exc()[-1500:]})
        return
    say({'ready': True})
    for line in sys.stdin:
        req = json.loads(line)
        try:
            with core.preempted(req['case'].get('trace')):
                res = checks.CHECKS[req['prop']](req['case'])
            verdict = {'ok': True}
            verdict.update(res or {})
        except core.Undefined:
            verdict = {'ok': True, 'nt': False, 'labels': ['undefined']}
        except core.CheckFailure as e:
            verdict = {'ok': False, 'msg': str(e)[:4000]}
        except BaseException as e:
            text = traceback.format_exc()
            if in_biggus(e):
                # Not expected by the check, but raised by the code under
                # test.
                verdict = {'ok': False, 'msg': 'unexpected ' + text[-3000:]}
            else:
                verdict = {'err': text[-3000:]}
        say(verdict)


if __name__ == '__main__':
    main()
