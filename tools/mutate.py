"""Mutation testing of the checks: small changes of the sources that keep the stable tests passing, and what catches them.
Usage: mutate.py OUT.jsonl [--files=a.py,b.py] [--per=N] [--seed=S] [--jobs=J]. Everything happens in scratch copies."""
import ast
import concurrent.futures
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
SRC = 'src/sloth/'
CHECKS = {
    'core/unit.py': 'C01 C23 C02', 'core/quantity.py': 'C04 C23 C03 C12', 'core/variable.py': 'C04 C06 C16 C23 C14 C11',
    'core/parameter.py': 'C04 C06 C23 C11', 'core/constant.py': 'C04 C06 C23', 'core/template_units.py': 'C01 C02',
    'core/expression_evaluation.py': 'C02 C05 C03 C07', 'core/equation_operators.py': 'C02 C05 C03 C14',
    'core/equation.py': 'C03 C05 C06 C08 C09 C12 C14 C21', 'core/equation_block.py': 'C09 C11 C13 C15 C12 C14',
    'core/domain.py': 'C16 C22 C18 C14 C07', 'core/property_package.py': 'C24 C20 C07', 'model.py': 'C06 C24 C10 C08 C21 C20 C07 C09',
    'problem.py': 'C09 C10 C11 C05 C15 C14 C21 C07', 'simulation.py': 'C18 C11 C17 C13 C15 C14 C12 C22', 'solvers.py': 'C13 C15 C14 C17 C12',
    'optimization.py': 'C19 C07', 'analysis.py': 'C21 C11', 'plotter.py': 'C22', 'unit_op_library.py': 'C24 C20', 'connection.py': 'C10', 'unit_op.py': 'C07'}
SKIP = re.compile(r'latex|__str__|__repr__|Graph|graph|showModel|Tank|Fermenter|Flash|^_info|^print')


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.stack = src, [], []
        self.lines = [0]
        for l in src.split('\n'):
            self.lines.append(self.lines[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def pos(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno))

    def visit_FunctionDef(self, n):
        if SKIP.search(n.name):
            return
        for c in n.body:
            self.visit(c)
    def visit_ClassDef(self, n):
        if SKIP.search(n.name):
            return
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print':
            return
        self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, 'pass', 'no raise')

    def visit_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) or isinstance(n.targets[0], ast.Name) and n.targets[0].id == '_':
            self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, 'True', 'if True')
        self.add(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % self.text(n.body), 'ifexp')
        self.add(n, '(%s)' % self.text(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            sw = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
            self.add(n, '%s %s %s' % (self.text(n.left), sw[type(n.ops[0])], self.text(n.comparators[0])), 'compare')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        j = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, j.join('(%s)' % self.text(v) for v in n.values), 'boolop')
        for i in range(len(n.values)):
            rest = [v for k, v in enumerate(n.values) if k != i]
            self.add(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % self.text(v) for v in rest), 'boolop')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
        if type(n.op) in sw and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            self.add(n, '%s %s %s' % (self.text(n.left), sw[type(n.op)], self.text(n.right)), 'binop')
            self.add(n, self.text(n.left), 'left')
            self.add(n, self.text(n.right), 'right')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, self.text(n.operand), 'unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.add(n, str(not n.value), 'bool')
        elif n.value is None:
            return
        elif isinstance(n.value, (int, float)):
            self.add(n, '%r' % (n.value + 1), 'number')
            self.add(n, '%r' % (n.value * 1.01 if isinstance(n.value, float) else n.value - 1), 'number')

    def visit_JoinedStr(self, n):
        pass

    def visit_Subscript(self, n):
        if not isinstance(n.slice, (ast.Constant, ast.Slice)) or isinstance(n.slice, ast.Slice):
            if isinstance(n.slice, ast.Slice):
                self.add(n, self.text(n.value), 'unslice')
        self.generic_visit(n)

    def visit_Call(self, n):
        if SKIP.search(self.text(n.func).split('.')[-1]):
            return
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[0], n.args[1]
            p, q = self.pos(a)
            r, s = self.pos(b)
            self.out.append((p, s, self.text(b) + self.b[q:r].decode() + self.text(a), 'swap args', n.lineno))
        for i, k in enumerate(n.keywords):
            if k.arg and k.arg not in ('description', 'latex_text', 'name'):
                p, q = self.pos(k)
                e = re.match(rb'\s*,', self.b[q:])
                self.out.append((p, q + (e.end() if e else 0), '', 'drop keyword', n.lineno))
        f = self.text(n.func)
        if len(n.args) == 1 and not n.keywords and f in ('list', 'copy.copy', 'copy.deepcopy', 'deepcopy', 'float', 'str', 'sorted', 'set', 'abs', 'np.array', 'OrderedDict'):
            self.add(n, '(%s)' % self.text(n.args[0]), 'uncall')
        self.generic_visit(n)

    def visit_ListComp(self, n):
        g = n.generators[0]
        self.add(g.iter, '(list(%s)[::-1])' % self.text(g.iter), 'reversed')
        self.add(g.iter, '(list(%s)[:-1])' % self.text(g.iter), 'all but the last')
        self.add(g.iter, '(list(%s)[1:])' % self.text(g.iter), 'all but the first')
        for i in g.ifs:
            self.add(i, 'True', 'no filter')
        self.generic_visit(n)

    def visit_For(self, n):
        self.add(n.iter, '(list(%s)[::-1])' % self.text(n.iter), 'reversed')
        self.add(n.iter, '(list(%s)[:-1])' % self.text(n.iter), 'all but the last')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.add(n.value, 'None', 'return None')
        self.generic_visit(n)

    def visit_Dict(self, n):
        if len(n.keys) > 1 and all(k is None for k in n.keys):
            for v in n.values:
                a, b = self.pos(v)
                self.out.append((a - 2, b, '**{}', 'drop part', n.lineno))
        self.generic_visit(n)

    def visit_arguments(self, n):
        pass


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **k)


def one(job):
    path, (a, b, new, kind, line), text = job
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    repo = d + '/repo'
    res = {'file': path, 'line': line, 'kind': kind, 'old': text, 'new': new}
    try:
        os.mkdir(repo)
        for x in ('src', 'tests'):
            shutil.copytree('/repo/' + x, repo + '/' + x, ignore=shutil.ignore_patterns('__pycache__'))
        for f in glob.glob('/repo/*'):
            if os.path.isfile(f):
                shutil.copy(f, repo)
        f = repo + '/' + SRC + path
        s = open(f, 'rb').read()
        s = s[:a] + new.encode() + s[b:]
        open(f, 'wb').write(s)
        try:
            compile(s, path, 'exec')
        except Exception:
            res['result'] = 'invalid'
            return res
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        files = sorted({t.split('::')[0].replace('.', '/') + '.py' for t in stable})
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig')
        try:
            r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', *files], cwd=repo, env=env, timeout=60)
        except subprocess.TimeoutExpired:
            res['result'] = 'tests'
            return res
        if r.returncode or not re.search(r'%d passed' % len(stable), r.stdout):
            res['result'] = 'tests'
            return res
        for c in CHECKS[path].split():
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_EVIDENCE=d + '/e', VERIF_REPLAYS=d + '/r')
            try:
                r = sh([VERIF + '/bin/check', c, '--quick'], env=env, timeout=600)
            except subprocess.TimeoutExpired:
                res.update(result='no answer', check=c, message='timeout')
                return res
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                m = r.stdout.split('\n')
                i = [k for k, x in enumerate(m) if x.startswith('VIOLATION')][0]
                res.update(result='caught', check=c, message=' '.join(m[i + 1:i + 3])[:200])
                return res
            if r.returncode not in (0, 1):
                res.update(result='no answer', check=c, message=(r.stdout + r.stderr)[-300:])
                return res
        res['result'] = 'survived'
        return res
    except Exception as e:
        res['result'] = 'error %r' % e
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = sys.argv[1]
    opts = dict(a[2:].split('=') for a in sys.argv[2:])
    files = opts.get('files', ','.join(CHECKS)).split(',')
    rng = random.Random(int(opts.get('seed', 0)))
    jobs = []
    for p in files:
        raw = open('/repo/' + SRC + p, 'rb').read()
        g = Gen(raw.decode(errors='surrogateescape'))
        g.visit(ast.parse(g.src))
        ms = sorted(set(g.out))
        n = int(opts.get('per', 60))
        ms = rng.sample(ms, min(n, len(ms)))
        jobs += [(p, m, g.b[m[0]:m[1]].decode()[:300]) for m in ms]
        print(p, len(g.out), '->', len(ms), flush=True)
    rng.shuffle(jobs)
    done = 0
    with concurrent.futures.ThreadPoolExecutor(int(opts.get('jobs', 7))) as ex, open(out, 'a') as f:
        for r in ex.map(one, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()
            done += 1
            if r['result'] not in ('tests', 'invalid', 'caught'):
                print(done, r['result'], r.get('check', ''), '%s:%d %s: %r -> %r' % (r['file'], r['line'], r['kind'], r['old'][:90], r['new'][:60]), r.get('message', ''), flush=True)


main()
