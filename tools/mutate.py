#!/usr/bin/env python3
"""
Mutation campaign: which small changes of the package pass its tests, and
which of those do the checks report?

  tools/mutate.py gen OUT              write OUT/mutants.json
  tools/mutate.py tests OUT [JOBS]     run the stable tests on each mutant
  tools/mutate.py checks OUT [JOBS]    run the checks on each survivor
  tools/mutate.py report OUT           list what no check reported

Works on scratch copies of the package; nothing here is used by a check.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['region/objective_function.py', 'region/util.py',
         'region/csgraph_utils.py', 'region/skater/skater.py',
         'region/p_regions/azp.py', 'region/p_regions/azp_util.py',
         'region/p_regions/exact.py', 'region/max_p_regions/exact.py',
         'region/max_p_regions/heuristics.py']
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*',
       ast.FloorDiv: '*', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&'}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
         'append': 'appendleft', 'sorted': 'list', 'pop': 'pop'}


class Gen(ast.NodeVisitor):
    def __init__(self, src, path):
        self.src = src
        self.path = path
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l) + 1)
        self.out = []
        self.fn = []

    def pos(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def seg(self, n):
        a, b = self.pos(n)
        return self.src[a:b]

    def add(self, n, new, what):
        a, b = self.pos(n)
        if self.src[a:b] == new:
            return
        self.out.append({'file': self.path, 'a': a, 'b': b, 'new': new,
                         'line': n.lineno, 'what': what,
                         'fn': '.'.join(self.fn),
                         'old': self.src[a:b][:200]})

    def generic(self, n):
        ast.NodeVisitor.generic_visit(self, n)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for i, s in enumerate(n.body):
            self.visit(s)
        for d in list(n.args.defaults) + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return                       # docstring
        if isinstance(n.value, ast.Call) and isinstance(
                n.value.func, ast.Name) and n.value.func.id == 'print':
            return
        self.add(n, 'pass', 'delete statement')
        self.generic(n)

    def visit_Assign(self, n):
        if self.fn:
            self.add(n, 'pass', 'delete assignment')
        self.generic(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'delete augmented')
        t = type(n.op)
        if t in BIN:
            self.add(n, '{} {}= {}'.format(self.seg(n.target), BIN[t],
                                           self.seg(n.value)), 'aug op')
        self.generic(n)

    def visit_Raise(self, n):
        self.add(n, 'pass', 'delete raise')

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant)):
            self.generic(n)

    def visit_Continue(self, n):
        self.add(n, 'break', 'continue->break')
        self.add(n, 'pass', 'delete continue')

    def visit_Break(self, n):
        self.add(n, 'continue', 'break->continue')
        self.add(n, 'pass', 'delete break')

    def visit_If(self, n):
        self.add(n.test, 'not ({})'.format(self.seg(n.test)), 'negate if')
        self.add(n.test, 'True', 'if True')
        self.add(n.test, 'False', 'if False')
        self.generic(n)

    def visit_While(self, n):
        self.add(n.test, 'False', 'while False')
        self.generic(n)

    def visit_IfExp(self, n):
        self.add(n, self.seg(n.body), 'ifexp body')
        self.add(n, self.seg(n.orelse), 'ifexp else')
        self.generic(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + op.join(self.seg(v) for v in n.values) + ')',
                 'bool op')
        for i in range(len(n.values)):
            rest = [self.seg(v) for j, v in enumerate(n.values) if j != i]
            o = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.add(n, '(' + o.join(rest) + ')', 'drop operand')
        self.generic(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                self.add(n, '{} {} {}'.format(self.seg(n.left), new,
                                              self.seg(n.comparators[0])),
                         'compare')
        else:
            for i, o in enumerate(n.ops):
                for new in CMP.get(type(o), []):
                    parts = [self.seg(n.left)]
                    for j, c in enumerate(n.comparators):
                        sym = new if j == i else {
                            ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
                            ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='
                        }.get(type(n.ops[j]), '==')
                        parts += [sym, self.seg(c)]
                    self.add(n, ' '.join(parts), 'compare chain')
        self.generic(n)

    def visit_BinOp(self, n):
        t = type(n.op)
        if t in BIN and not (isinstance(n.left, ast.Constant) and isinstance(
                n.left.value, str)):
            self.add(n, '({} {} {})'.format(self.seg(n.left), BIN[t],
                                            self.seg(n.right)), 'arith')
        self.generic(n)

    def visit_UnaryOp(self, n):
        self.add(n, self.seg(n.operand), 'drop unary')
        self.generic(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), 'flip bool')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'const+1')
            self.add(n, str(v - 1), 'const-1')
        elif isinstance(v, float):
            self.add(n, repr(v * 2), 'const*2')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(
            f, ast.Attribute) else None
        if name in NAMES and NAMES[name] != name:
            if isinstance(f, ast.Name):
                self.add(f, NAMES[name], 'name')
        if name in ('print', 'format', 'warn'):
            return
        for i, k in enumerate(n.keywords):
            if k.arg is None:
                continue
            args = [self.seg(a) for a in n.args] + [
                '{}={}'.format(q.arg, self.seg(q.value)) if q.arg else
                '**' + self.seg(q.value)
                for j, q in enumerate(n.keywords) if j != i]
            self.add(n, '{}({})'.format(self.seg(f), ', '.join(args)),
                     'drop keyword ' + k.arg)
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                        for a in n.args):
            a = [self.seg(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            a += ['{}={}'.format(q.arg, self.seg(q.value)) if q.arg else
                  '**' + self.seg(q.value) for q in n.keywords]
            self.add(n, '{}({})'.format(self.seg(f), ', '.join(a)),
                     'swap arguments')
        if len(n.args) == 1 and not n.keywords and name in (
                'copy', 'deepcopy', 'set', 'list', 'sorted', 'tuple', 'float',
                'int', 'abs', 'array', 'asarray', 'frozenset', 'reversed'):
            self.add(n, self.seg(n.args[0]), 'unwrap ' + name)
        if isinstance(f, ast.Attribute) and name == 'copy' and not n.args:
            self.add(n, self.seg(f.value), 'unwrap copy')
        self.generic(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.add(c, 'True', 'comprehension filter')
        self.generic(n)

    def visit_Subscript(self, n):
        self.generic(n)


def gen(out):
    muts = []
    for f in FILES:
        src = open('/repo/' + f).read()
        g = Gen(src, f)
        g.visit(ast.parse(src))
        seen = set()
        for m in g.out:
            k = (m['a'], m['b'], m['new'])
            if k in seen:
                continue
            seen.add(k)
            try:
                compile(src[:m['a']] + m['new'] + src[m['b']:], f, 'exec')
            except SyntaxError:
                continue
            muts.append(m)
    random.Random(1).shuffle(muts)
    for i, m in enumerate(muts):
        m['id'] = i
    json.dump(muts, open(out + '/mutants.json', 'w'), indent=0)
    from collections import Counter
    print(len(muts), Counter(m['file'] for m in muts))


def make(m, d):
    copy = os.path.join(d, 'repo')
    shutil.copytree('/repo', copy, symlinks=True,
                    ignore=shutil.ignore_patterns('.git', 'notebooks',
                                                  '__pycache__'))
    p = os.path.join(copy, m['file'])
    s = open(p).read()
    open(p, 'w').write(s[:m['a']] + m['new'] + s[m['b']:])
    return copy


ENV = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
       'PATH': os.environ['PATH'], 'HOME': os.environ.get('HOME', '/root')}


def sh(cmd, cwd, env, timeout):
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, 'timeout'


def run_tests(m):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        copy = make(m, d)
        env = dict(ENV, PYTHONPATH=copy, TMPDIR=d)
        want = json.load(open('/opt/vp/BASELINE.json'))['stable']
        x = os.path.join(d, 'junit.xml')
        rc, o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W',
                    'ignore', '--timeout=60', '-x', '--junitxml', x] + [
                        '--deselect=' + t for t in DESEL] + [
                        '--ignore=region/skater/test_skater.py'],
                   copy, env, 240)
        import xml.etree.ElementTree as ET
        try:
            passed = set()
            for c in ET.parse(x).getroot().iter('testcase'):
                if not [k for k in c if k.tag in ('failure', 'error',
                                                  'skipped')]:
                    passed.add((c.get('classname') or '') + '::' +
                               c.get('name'))
        except Exception:
            passed = set()
        miss = [t for t in want if t not in passed]
        return 'survived' if not miss else 'killed'
    finally:
        shutil.rmtree(d, ignore_errors=True)


DESEL = []


def pool(out, key, fn, todo, jobs):
    path = out + '/%s.json' % key
    done = json.load(open(path)) if os.path.exists(path) else {}
    todo = [m for m in todo if str(m['id']) not in done]
    t0 = time.time()
    with ThreadPoolExecutor(jobs) as ex:
        for k, (m, r) in enumerate(zip(todo, ex.map(fn, todo))):
            done[str(m['id'])] = r
            if k % 5 == 0:
                json.dump(done, open(path + '.t', 'w'))
                os.replace(path + '.t', path)
                print(k, len(todo), int(time.time() - t0), flush=True)
    json.dump(done, open(path, 'w'))


def tests(out, jobs):
    pool(out, 'tests', run_tests, json.load(open(out + '/mutants.json')),
         jobs)


# the checks which run code of a file, the likeliest first
ORDER = {
    'region/skater/skater.py': 'C18 C14 C12 C15 C22 C13 C16',
    'region/p_regions/exact.py': 'C10 C12 C16 C17 C22 C13 C14',
    'region/max_p_regions/exact.py': 'C11 C12 C17 C22 C13 C14 C16',
    'region/max_p_regions/heuristics.py':
        'C08 C24 C09 C14 C13 C17 C15 C12 C05 C22 C07',
    'region/objective_function.py': 'C04 C06 C03 C17 C09 C05 C23 C13 C16',
    'region/p_regions/azp.py': 'C23 C03 C05 C07 C14 C06 C01 C17 C12 C13 C15 '
                               'C08 C09 C02 C22',
    'region/p_regions/azp_util.py': 'C06 C03 C05 C08 C01 C07 C14 C09 C16',
    'region/csgraph_utils.py': 'C01 C02 C08 C17 C13 C05',
    'region/util.py': 'C01 C17 C02 C13 C08 C10 C11 C15 C16 C05 C24 C12 C22'}
ORDER = {k: v.split() for k, v in ORDER.items()}


def run_checks(m):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        copy = make(m, d)
        ids = ORDER[m['file']]
        odd = []
        for i in ids:
            env = dict(os.environ, DST_REPO=copy, DST_JOBS='1',
                       DST_SHRINK='0', DST_REPLAY_DIR=d + '/rp', TMPDIR=d)
            rc, o = sh([os.path.join(VERIF, 'run.sh'), i, '--no-evidence',
                        '--jobs', '1', '--runs', os.environ.get(
                            'MUT_RUNS', '300'), '--cap', '40'],
                       VERIF, env, 300)
            if rc == 1:
                return [i] + odd
            if rc:
                odd.append('%s rc=%d %s' % (i, rc, o[-200:]))
        return ['NONE'] + odd
    finally:
        shutil.rmtree(d, ignore_errors=True)


def checks(out, jobs):
    t = json.load(open(out + '/tests.json'))
    pool(out, 'checks', run_checks,
         [m for m in json.load(open(out + '/mutants.json'))
          if t.get(str(m['id'])) == 'survived'], jobs)


def report(out):
    ms = json.load(open(out + '/mutants.json'))
    c = json.load(open(out + '/checks.json'))
    n = 0
    for m in sorted(ms, key=lambda m: (m['file'], m['line'])):
        r = c.get(str(m['id']))
        if r and r[0] == 'NONE':
            n += 1
            print('%d %s:%d %s [%s] %r -> %r %s' % (
                m['id'], m['file'], m['line'], m['fn'], m['what'],
                m['old'][:70], m['new'][:70], r[1:]))
    from collections import Counter
    print(n, 'of', len(c), 'not reported', Counter(
        r[0] for r in c.values()))


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2])
    elif sys.argv[1] == 'report':
        report(sys.argv[2])
    else:
        globals()[sys.argv[1]](sys.argv[2], int((sys.argv[3:] or ['7'])[0]))
