"""Small mechanical changes to the code under test, as a measure of the checks.

    python3 tools/mutants.py list               how many there are
    python3 tools/mutants.py test OUT           those passing the existing tests, one JSON line each
    python3 tools/mutants.py check OUT RESULT   runs a part of each quick check against those

Works in copies under /tmp/mut, removed at the end.
"""

from __future__ import annotations

import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

HERE = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
WORK = Path('/tmp/mut')

CMP = {
    ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'],
    ast.GtE: ['>', '<'], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in'],
}
BIN = {
    ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.BitOr: ['&'],
    ast.BitAnd: ['|'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.Mod: ['*'], ast.Pow: ['*'],
}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = [0]
        for line in text.encode().splitlines(keepends=True):
            self.lines.append(self.lines[-1] + len(line))
        self.data = text.encode()
        self.out = []
        self.names = [set()]
        self.func = None

    def pos(self, node):
        return (self.lines[node.lineno - 1] + node.col_offset,
                self.lines[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        a, b = self.pos(node)
        return self.data[a:b].decode()

    def put(self, node, new, what):
        a, b = self.pos(node)
        if self.data[a:b].decode() != new:
            self.out.append((a, b, new, what, node.lineno))

    def visit_FunctionDef(self, node):
        outer, self.func = self.func, node
        for d in node.decorator_list:
            if self.src(d) not in ('overload', 'abstractmethod'):
                a, b = self.pos(d)
                self.out.append((a - 1, b, '', 'decorator', d.lineno))
        if any(self.src(d) == 'overload' for d in node.decorator_list):
            self.func = outer
            return
        for stmt in node.body:
            self.visit(stmt)
        for d in node.args.defaults + node.args.kw_defaults:
            if d is not None:
                self.visit(d)
        self.func = outer

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Assign(self, node):
        if self.func is not None:
            self.put(node, 'pass', 'delete')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.put(node, 'pass', 'delete')
        self.put(node, f'{self.src(node.target)} = {self.src(node.value)}', 'plain assignment')
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.put(node, 'pass', 'delete')
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.put(node, 'pass', 'delete')

    def visit_Return(self, node):
        if node.value is not None:
            self.put(node, 'return None', 'return None')
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.put(node, 'break', 'break')
        self.put(node, 'pass', 'pass')

    def visit_Break(self, node):
        self.put(node, 'pass', 'pass')

    def test(self, node):
        self.put(node, 'True', 'always')
        self.put(node, 'False', 'never')

    def visit_If(self, node):
        if 'TYPE_CHECKING' in self.src(node.test):
            return
        self.test(node.test)
        self.generic_visit(node)

    def visit_While(self, node):
        self.put(node.test, 'False', 'never')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.put(node, self.src(node.body), 'always')
        self.put(node, self.src(node.orelse), 'never')
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            for op in CMP.get(type(node.ops[0]), []):
                self.put(node, f'{self.src(node.left)} {op} {self.src(node.comparators[0])}', 'compare')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = ' or ' if isinstance(node.op, ast.And) else ' and '
        same = ' and ' if isinstance(node.op, ast.And) else ' or '
        parts = [f'({self.src(v)})' for v in node.values]
        self.put(node, '(' + op.join(parts) + ')', 'and/or')
        for i in range(len(parts)):
            self.put(node, '(' + same.join(parts[:i] + parts[i + 1:]) + ')', 'operand')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            self.put(node, self.src(node.operand), 'unary')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        left, right = self.src(node.left), self.src(node.right)
        for op in BIN.get(type(node.op), []):
            self.put(node, f'({left} {op} {right})', 'operator')
        self.put(node, f'({left})', 'left only')
        self.put(node, f'({right})', 'right only')
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.put(node, str(not v), 'constant')
        elif isinstance(v, int):
            self.put(node, str(v + 1), 'constant')
            self.put(node, str(v - 1), 'constant')
        elif isinstance(v, str):
            self.put(node, repr('' if v else 'x'), 'constant')
        elif isinstance(v, bytes):
            self.put(node, repr(b'' if v else b'x'), 'constant')
        elif v is None:
            self.put(node, '0', 'constant')

    def visit_JoinedStr(self, node):
        pass

    def visit_Call(self, node):
        fn = self.src(node.func)
        if fn in ('TypeVar', 'cast', 'NewType', 'ParamSpec'):
            return
        args = [self.src(a) for a in node.args]
        kws = [self.src(k) for k in node.keywords]
        for i in range(len(args)):
            self.put(node, f"{fn}({', '.join(args[:i] + args[i + 1:] + kws)})", 'argument')
        for i in range(len(kws)):
            self.put(node, f"{fn}({', '.join(args + kws[:i] + kws[i + 1:])})", 'keyword')
        if len(args) == 2:
            self.put(node, f"{fn}({', '.join(args[::-1] + kws)})", 'swapped')
        if len(args) == 1 and not kws:
            self.put(node, args[0], 'unwrapped')
        if isinstance(node.func, ast.Attribute) and not args and not kws:
            self.put(node, self.src(node.func.value), 'uncalled')
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.slice, ast.Slice):
            s = node.slice
            lo = self.src(s.lower) if s.lower else ''
            hi = self.src(s.upper) if s.upper else ''
            v = self.src(node.value)
            if lo:
                self.put(node, f'{v}[:{hi}]', 'slice')
            if hi:
                self.put(node, f'{v}[{lo}:]', 'slice')
        self.generic_visit(node)

    def loop(self, node):
        it = self.src(node.iter)
        self.put(node.iter, f'list({it})[:-1]', 'all but the last')
        self.put(node.iter, f'list({it})[1:]', 'all but the first')
        self.put(node.iter, f'list({it})[::-1]', 'reversed')

    def visit_For(self, node):
        self.loop(node)
        self.generic_visit(node)

    def visit_comprehension(self, node):
        self.loop(node)
        for c in node.ifs:
            self.put(c, 'True', 'always')
        self.generic_visit(node)

    def visit_ExceptHandler(self, node):
        # `except: ...` does not handle anything
        for stmt in node.body:
            self.visit(stmt)
        if node.type is not None:
            self.put(node.type, 'ZeroDivisionError', 'not caught')

    def visit_Starred(self, node):
        self.generic_visit(node)

    def visit_Attribute(self, node):
        swaps = {
            'prepack': 'preunpack', 'preunpack': 'prepack', 'num_values': 'size', 'size': 'num_values',
            'serializers': 'serializers[::-1]', 'byte_order': 'byte_order.__class__.NETWORK',
        }
        if isinstance(node.ctx, ast.Load) and node.attr in swaps:
            self.put(node, f'{self.src(node.value)}.{swaps[node.attr]}', 'attribute')
        self.generic_visit(node)


def mutants():
    out = []
    for path in sorted(REPO.glob('structured/**/*.py')):
        text = path.read_text()
        f = Finder(text)
        f.visit(ast.parse(text))
        seen = set()
        for a, b, new, what, line in f.out:
            data = f.data[:a] + new.encode() + f.data[b:]
            if data in seen:
                continue
            seen.add(data)
            try:
                compile(data, str(path), 'exec')
            except SyntaxError:
                continue
            out.append({
                'file': str(path.relative_to(REPO)), 'line': line, 'what': what,
                'old': f.data[a:b].decode(), 'new': new, 'a': a, 'b': b,
            })
    for i, m in enumerate(out):
        m['id'] = i
    return out


def apply(m, folder):
    path = folder / m['file']
    data = (REPO / m['file']).read_bytes()
    path.write_bytes(data[:m['a']] + m['new'].encode() + data[m['b']:])


def restore(m, folder):
    shutil.copyfile(REPO / m['file'], folder / m['file'])


def pool(jobs):
    shutil.rmtree(WORK, ignore_errors=True)
    free = Queue()
    for i in range(jobs):
        folder = WORK / f'w{i}'
        shutil.copytree(REPO, folder, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        free.put(folder)
    return free


def run_tests(folder):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=str(folder), PYTHONHASHSEED='0')
    try:
        p = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--no-cov', '-p', 'no:cacheprovider',
             '--timeout=60', 'tests'],
            cwd=folder, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


RUNNER = r'''
import sys, json, resource, time
sys.path.insert(0, %(here)r)
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
sys.setrecursionlimit(5000)
from vf import driver
from vf.battery import Stats
caught = []
first = sys.argv[2].split(',') if sys.argv[2] else []
ids = first + [c for c in ['C%%02d' %% i for i in range(1, 25)] if c not in first]
fraction = float(sys.argv[1])
stop = int(sys.argv[3])
for c in ids:
    try:
        check = driver.load_check(c)
    except Exception as e:
        caught.append(f'{c}:load')
        continue
    hit = None
    for name, kind in check.KINDS.items():
        n = max(min(kind.quick, 12), int(kind.quick * fraction))
        step = max(1, kind.quick // n)
        for i in range(0, kind.quick, step):
            bad = driver.run_case(check, name, i, 1, 'quick', Stats())
            if bad is not None and bad['key'] is None:
                hit = f"{c}:{name}:{i}"
                break
        if hit:
            break
    if hit:
        caught.append(hit)
        print(hit, flush=True)
        if len(caught) >= stop:
            break
print('END', flush=True)
'''


def run_checks(folder, fraction, first, stop):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VF_REPO=str(folder), PYTHONHASHSEED='0')
    try:
        p = subprocess.run(
            [sys.executable, '-B', '-c', RUNNER % {'here': str(HERE)}, str(fraction), first, str(stop)],
            cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=5400)
        lines = p.stdout.decode(errors='replace').splitlines()
    except subprocess.TimeoutExpired as e:
        lines = (e.stdout or b'').decode(errors='replace').splitlines() + ['TIMEOUT']
    hits = [x for x in lines if x[:1] == 'C' and x.count(':') >= 1 and x[1:3].isdigit()]
    return hits, lines[-1:] if lines[-1:] != ['END'] else []


def main():
    what = sys.argv[1]
    jobs = int(os.environ.get('JOBS', '8'))
    if what == 'list':
        ms = mutants()
        print(len(ms))
        for m in random.Random(1).sample(ms, 10):
            print(m)
        return
    free = pool(jobs)
    if what == 'test':
        ms = mutants()

        def one(m):
            folder = free.get()
            try:
                apply(m, folder)
                return run_tests(folder)
            finally:
                restore(m, folder)
                free.put(folder)

        with ThreadPoolExecutor(jobs) as ex, open(sys.argv[2], 'w') as out:
            for m, ok in zip(ms, ex.map(one, ms)):
                if ok:
                    print(json.dumps(m), file=out, flush=True)
    else:
        ms = [json.loads(x) for x in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {json.loads(x)['id'] for x in open(sys.argv[3])}
        fraction = float(os.environ.get('FRACTION', '0.1'))
        stop = int(os.environ.get('STOP', '1'))
        first = os.environ.get('FIRST', '')

        def one(m):
            folder = free.get()
            try:
                apply(m, folder)
                return run_checks(folder, fraction, first, stop)
            finally:
                restore(m, folder)
                free.put(folder)

        ms = [m for m in ms if m['id'] not in done]
        with ThreadPoolExecutor(jobs) as ex, open(sys.argv[3], 'a') as out:
            futures = [(m, ex.submit(one, m)) for m in ms]
            for m, fu in futures:
                hits, odd = fu.result()
                print(json.dumps(dict(m, hits=hits, odd=odd)), file=out, flush=True)
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
