"""
One shard of a check: drives Hypothesis over the cases of one property, and
writes a JSON summary to the path it is given.

  shard.py PROPERTY SEED CASES SOFT_SECONDS OUT
"""
import hashlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa
from hypothesis.errors import Flaky, StopTest  # noqa

from client import HarnessError, Worker  # noqa
import props  # noqa
from props import PROPS  # noqa

SHRINK_S = 60


class Violation(Exception):
    pass


class Budget(Exception):
    """The soft time budget of the shard is used up."""


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


class Shard(object):
    def __init__(self, pid, seed, cases, soft):
        self.pid = pid
        self.seed = seed
        self.cases = cases
        self.soft = soft
        self.prop = PROPS[pid]
        self.worker = Worker(hang_s=self.prop.hang_s)
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.failure = None          # smallest failing case, its message
        self.fail_time = None
        self.hangs = []
        self.skipped = 0
        self.errors = []
        self.start = time.time()
        self.known = set()
        # The cases which this worker has had, up to the first failure.
        self.history = []

    def judge(self, case):
        """None if the property held, or a message."""
        key = key_of(case)
        if key in self.known:
            return None
        if self.failure is None:
            if self.worker.proc is None:
                self.history = []
            self.history.append(case)
        verdict = self.worker.run(self.pid, case)
        if verdict.get('hang') or verdict.get('died'):
            return 'hang' if verdict.get('hang') else 'the process died'
        if 'err' in verdict:
            raise HarnessError(verdict['err'] + '\n' + json.dumps(case))
        if verdict['ok']:
            self.evaluations += 1
            if key not in self.seen:
                self.seen.add(key)
                for lab in verdict.get('labels', ()):
                    self.labels[lab] = self.labels.get(lab, 0) + 1
                if verdict.get('nt'):
                    self.nontrivial.add(key)
                    if len(self.samples) < 3 and len(
                            self.nontrivial) % 40 == 5:
                        self.samples.append(case)
            return None
        self.evaluations += 1
        return verdict['msg']

    def once(self, case):
        now = time.time()
        if self.failure is not None:
            # Shrinking.
            if self.hangs or now - self.fail_time > SHRINK_S:
                if key_of(case) == key_of(self.failure[0]):
                    raise Violation()
                return
        elif now - self.start > self.soft:
            self.skipped += 1
            return
        msg = self.judge(case)
        if msg is None:
            return
        if msg in ('hang', 'the process died'):
            self.hangs.append(case)
        if self.failure is None:
            self.fail_time = now
        self.failure = (case, msg)
        raise Violation()

    def go(self):
        @seed(self.seed)
        @settings(max_examples=self.cases, database=None, deadline=None,
                  report_multiple_bugs=False, print_blob=False,
                  suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink])
        @given(self.prop.strategy)
        def run(case):
            self.once(case)

        try:
            run()
        except HarnessError as e:
            self.errors.append(str(e)[-4000:])
        except Violation:
            pass
        except BaseException as e:
            if self.failure is None:
                self.errors.append(traceback.format_exc()[-4000:])
        finally:
            self.worker.stop()

    def summary(self):
        return {
            'evaluations': self.evaluations,
            'nontrivial': sorted(self.nontrivial),
            'labels': self.labels, 'samples': self.samples,
            'failure': self.failure,
            'history': self.history if self.failure else None,
            'errors': self.errors,
            'generator_errors': len(props.GENERATOR_ERRORS),
            'generator_error': (props.GENERATOR_ERRORS or [None])[0],
            'hang': bool(self.hangs), 'skipped': self.skipped,
            'workers': self.worker.n_started,
            'wall_s': time.time() - self.start}


def main():
    pid, seed_, cases, soft, out = sys.argv[1:6]
    s = Shard(pid, int(seed_), int(cases), float(soft))
    s.go()
    with open(out + '.tmp', 'w') as f:
        json.dump(s.summary(), f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    main()
