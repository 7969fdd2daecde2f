"""
Systematic sensitivity test: single-site mutants of biggus, which of them the
unit tests let through, and which of those the checks detect.

  mutants.py list                         how many mutants of each kind
  mutants.py tests OUT [--sample N]       run the unit tests on each
  mutants.py checks OUT [--cases N]       run the checks on the survivors
  mutants.py show OUT                     what survived everything

Works on copies of /repo (or of $MUT_REPO) under /tmp/mut, never on /repo itself.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['biggus/_init.py', 'biggus/experimental/dask_engine.py',
         'biggus/experimental/key_grouper.py', 'biggus/__init__.py']
ROOT = '/tmp/mut'
REPO = os.environ.get('MUT_REPO', '/repo')
COMPARE = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
           ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in'}
TEXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
        ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not',
        ast.In: 'in', ast.NotIn: 'not in'}
BINOP = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '+'),
         ast.FloorDiv: ('//', '*'), ast.Div: ('/', '*'), ast.Mod: ('%', '+'),
         ast.BitOr: ('|', '&'), ast.BitAnd: ('&', '|')}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        lines = src.splitlines(True)
        self.starts = [0]
        for line in lines:
            self.starts.append(self.starts[-1] + len(line))
        self.out = []
        self.stack = []

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return (self.pos(n.lineno, n.col_offset),
                self.pos(n.end_lineno, n.end_col_offset))

    def add(self, kind, lo, hi, text):
        if self.src[lo:hi] != text:
            line = self.src.count('\n', 0, lo) + 1
            self.out.append(dict(kind=kind, lo=lo, hi=hi, text=text,
                                 line=line, where='.'.join(self.stack),
                                 old=self.src[lo:hi]))

    def seg(self, n):
        lo, hi = self.span(n)
        return self.src[lo:hi]

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for c in n.body:
            self.visit(c)
        self.stack.pop()

    visit_FunctionDef = visit_ClassDef

    def between(self, a, b, old, new, kind):
        lo, hi = self.span(a)[1], self.span(b)[0]
        gap = self.src[lo:hi]
        k = gap.find(old)
        if k >= 0:
            self.add(kind, lo + k, lo + k + len(old), new)

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            self.between(left, right, TEXT[type(op)], COMPARE[type(op)],
                         'compare')
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BINOP and not isinstance(n.left, ast.Constant):
            old, new = BINOP[type(n.op)]
            self.between(n.left, n.right, old, new, 'binop')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        old, new = ('and', 'or') if isinstance(n.op, ast.And) else \
            ('or', 'and')
        self.between(n.values[0], n.values[1], old, new, 'boolop')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        lo, hi = self.span(n)
        if isinstance(n.op, ast.Not):
            self.add('not', lo, hi, self.seg(n.operand))
        elif isinstance(n.op, ast.USub):
            self.add('neg', lo, hi, self.seg(n.operand))
        self.generic_visit(n)

    def visit_Constant(self, n):
        lo, hi = self.span(n)
        if n.value is True:
            self.add('const', lo, hi, 'False')
        elif n.value is False:
            self.add('const', lo, hi, 'True')
        elif isinstance(n.value, int):
            self.add('const', lo, hi, str(n.value + 1))
            if n.value == 1:
                self.add('const', lo, hi, '0')

    def cond(self, n):
        lo, hi = self.span(n.test)
        self.add('cond', lo, hi, 'True')
        self.add('cond', lo, hi, 'False')
        self.generic_visit(n)

    visit_If = cond
    visit_IfExp = cond

    def visit_comprehension(self, n):
        for t in n.ifs:
            lo, hi = self.span(t)
            self.add('filter', lo, hi, 'True')
        self.generic_visit(n)

    def drop(self, n):
        lo, hi = self.span(n)
        self.add('drop', lo, hi, 'pass')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.Constant):
            self.drop(n)

    visit_AugAssign = drop
    visit_Raise = drop
    visit_Continue = drop
    visit_Break = drop
    visit_Delete = drop

    def visit_Assign(self, n):
        if self.stack and self.src[self.span(n)[0]:].startswith('self.'):
            pass
        elif self.stack and isinstance(n.targets[0], ast.Name):
            name = n.targets[0].id
            # Only where the name may already have a value.
            if not isinstance(n.value, ast.Constant):
                self.drop(n)
                return
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in (
                'reversed', 'sorted', 'tuple', 'list') and len(n.args) == 1:
            lo, hi = self.span(n)
            if n.func.id in ('reversed', 'sorted'):
                self.add('unwrap', lo, hi, self.seg(n.args[0]))
        for kw in n.keywords:
            if kw.arg:
                lo = self.span(kw)[0]
                hi = self.span(kw)[1]
                prev = self.src.rfind(',', 0, lo)
                if n.args or n.keywords[0] is not kw:
                    self.add('dropkw', prev, hi, '')
        if len(n.args) == 2 and not n.keywords:
            a, b = n.args
            lo, hi = self.span(a)[0], self.span(b)[1]
            self.add('swap', lo, hi, self.seg(b) + ', ' + self.seg(a))
        self.generic_visit(n)


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        finder = Finder(src)
        finder.visit(ast.parse(src))
        seen = set()
        for m in finder.out:
            k = (m['lo'], m['hi'], m['text'])
            if k in seen:
                continue
            seen.add(k)
            new = src[:m['lo']] + m['text'] + src[m['hi']:]
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                continue
            m['file'] = f
            m['id'] = len(out)
            out.append(m)
    return out


def make_copy(k):
    d = os.path.join(ROOT, 'w%d' % k)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for name in ('biggus', 'setup.py', 'doc'):
        src = os.path.join(REPO, name)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(d, name))
        else:
            shutil.copy(src, d)
    return d


def apply(d, m):
    for f in FILES:
        shutil.copy(os.path.join(REPO, f), os.path.join(d, f))
    p = os.path.join(d, m['file'])
    src = open(p).read()
    with open(p, 'w') as f:
        f.write(src[:m['lo']] + m['text'] + src[m['hi']:])


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1')
IGNORE = ['--ignore=biggus/tests/test_pep8.py']


def run_tests(d):
    """Whether the unit tests pass (the two unreliable ones aside)."""
    env = dict(ENV, PYTHONPATH=d)
    try:
        p = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '--timeout=60', '-x', '--tb=no'] + IGNORE +
            ['--deselect=' + b for b in BASE_FAILURES] + ['biggus'],
            cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=240)
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    out = p.stdout.decode(errors='replace')
    bad = [line for line in out.splitlines()
           if line.startswith(('FAILED', 'ERROR'))]
    return not bad and p.returncode == 0 and 'passed' in out, bad[:2]


BASE_FAILURES = []


def pool(todo, work, out, n=8):
    done = {}
    if os.path.exists(out):
        for line in open(out):
            r = json.loads(line)
            done[r['id']] = r
    dirs = [make_copy(k) for k in range(n)]
    free = list(dirs)
    import threading
    lock = threading.Lock()

    def one(m):
        if m['id'] in done:
            return
        with lock:
            d = free.pop()
        try:
            apply(d, m)
            r = work(d, m)
        finally:
            with lock:
                free.append(d)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps(r) + '\n')

    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(one, m) for m in todo]:
            f.result()


def find_base_failures():
    d = make_copy(99)
    p = subprocess.run(
        ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
         'no:cacheprovider', '--tb=no'] + IGNORE + ['biggus'],
        cwd=d, env=dict(ENV, PYTHONPATH=d), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)
    for line in p.stdout.decode().splitlines():
        if line.startswith(('FAILED', 'ERROR')):
            BASE_FAILURES.append(line.split()[1])
    print('failures of the unchanged tree', BASE_FAILURES)


def cmd_tests(out, sample):
    find_base_failures()
    todo = mutants()
    if sample:
        todo = random.Random(1).sample(todo, sample)

    def work(d, m):
        ok, why = run_tests(d)
        return dict(m, survived=ok, why=why)
    pool(todo, work, out)


# The checks most likely to notice, by what is changed.
ORDER = [('_Std', 'C06 C07'), ('_Var', 'C06 C07'), ('_Min', 'C06 C07'),
         ('_Max', 'C06 C07'), ('_Sum', 'C06 C07'), ('_Count', 'C06 C07'),
         ('_Mean', 'C06 C07'), ('_Aggregation', 'C06 C07 C08 C09 C18 C10'),
         ('Elementwise', 'C04 C05 C10 C18'), ('wrapp', 'C04 C05 C18'),
         ('Broadcast', 'C04 C01 C18 C20'), ('NewAxes', 'C01 C10 C18'),
         ('Transpose', 'C01 C18'), ('Adapter', 'C02 C19 C18 C17'),
         ('Stack', 'C03 C17 C18 C19'), ('Mosaic', 'C03 C18 C19'),
         ('MaskValue', 'C19'), ('Engine', 'C09 C08 C14 C15'),
         ('Node', 'C14 C08 C09 C15 C12'), ('Queue', 'C14 C12 C15'),
         ('save', 'C13 C12 C08'), ('_all_slices', 'C12 C13 C08'),
         ('size', 'C20'), ('Constant', 'C20 C18 C01'),
         ('', 'C01 C04 C18 C10')]


def cmd_checks(out, cases, ids):
    rows = [json.loads(line) for line in open(out)]
    todo = [r for r in rows if r['survived']]
    print(len(rows), 'mutants', len(todo), 'survive the tests')

    def work(d, m):
        caught = []
        if 'dask' in m['file'] or 'group' in m['file']:
            mine = ['C16']
        else:
            first = [w for k, w in ORDER if k in m['where']][0].split()
            mine = [i for i in first if i in ids] + [
                i for i in ids if i not in first]
        for pid in mine:
            p = subprocess.run(
                ['python3', os.path.join(HERE, 'run.py'), '--property', pid,
                 '--cases', str(cases), '--shards', '1'],
                env=dict(ENV, BIGGUS_REPO=d, VF_OUT=os.path.join(d, 'out')),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
            if p.returncode == 1:
                caught.append(pid)
                break
            elif p.returncode != 0:
                caught.append(pid + ':error')
        return dict(m, caught=caught)
    random.Random(2).shuffle(todo)
    pool(todo, work, out + '.checks', 7)


def cmd_show(out):
    rows = [json.loads(line) for line in open(out + '.checks')]
    missed = [r for r in rows
              if not any(':' not in c for c in r['caught'])]
    print(len(rows), 'survivors of the tests,', len(missed), 'missed')
    for r in sorted(missed, key=lambda r: (r['file'], r['lo'])):
        print('#%d %s:%d %s [%s] %r -> %r %s' % (
            r['id'], r['file'], r['line'], r['where'], r['kind'],
            r['old'][:70], r['text'][:70], r['caught']))


if __name__ == '__main__':
    cmd = sys.argv[1]
    opts = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    if cmd == 'list':
        ms = mutants()
        kinds = {}
        for m in ms:
            kinds[m['kind']] = kinds.get(m['kind'], 0) + 1
        print(len(ms), kinds)
    elif cmd == 'tests':
        cmd_tests(sys.argv[2], int(opts.get('--sample', 0)))
    elif cmd == 'checks':
        ids = opts.get('--ids')
        ids = ids.split(',') if ids else ['C%02d' % k for k in range(1, 21)]
        cmd_checks(sys.argv[2], int(opts.get('--cases', 300)), ids)
    elif cmd == 'show':
        cmd_show(sys.argv[2])
