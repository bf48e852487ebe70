"""Mutation campaign: which small changes of the code does no check notice?

    python3 tools/mutate.py list [FILE...]
    python3 tools/mutate.py run OUT.jsonl [--files a,b] [--workers 4]
                                [--start N] [--only N,N] [--all]

Every mutant lives in a scratch copy under /tmp, which is removed.  Nothing
here is part of a check; survivors are read by a human.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import pathlib
import shutil
import signal
import subprocess
import tempfile
import threading

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
PKG = 'golem_messages'

ALL = ['C%02d' % i for i in range(1, 38)]
CHEAP = sorted(ALL, key=lambda c: {
    'C06': 9, 'C35': 8, 'C27': 8, 'C03': 7, 'C10': 7, 'C25': 7, 'C09': 6,
    'C24': 5, 'C31': 5, 'C13': 4, 'C15': 4}.get(c, 1))

RELEVANT = {
    'cryptography.py': 'C33 C05 C04 C30 C03',
    'datastructures/__init__.py': 'C19 C17 C18 C32 C35 C34 C36 C26',
    'datastructures/masking.py': 'C20 C36',
    'datastructures/p2p.py': 'C22 C17 C18 C32 C35 C36',
    'datastructures/promissory.py': 'C15',
    'datastructures/stats.py': 'C21 C17',
    'datastructures/tasks.py': 'C16 C18 C17 C26 C20 C32 C24',
    'exceptions.py': 'C34 C03 C07 C08 C25 C12 C15 C19',
    'constants.py': 'C28 C07 C08 C02',
    'settings.py': 'C28 C07 C08 C02',
    'helpers.py': 'C28',
    'idgenerator.py': 'C14',
    'register.py': 'C23 C02',
    'serializer.py': 'C34 C02 C01',
    'shortcuts.py': 'C07 C04 C03',
    'utils.py': 'C30 C24 C18',
    'validators.py': 'C18 C12',
    'message/base.py': 'C02 C01 C12 C32 C35 C24 C07 C26 C25 C23 C03 C09 C34 '
                       'C24 C36 C06 C27',
    'message/p2p.py': 'C02 C01 C08 C35 C26 C18 C12 C25',
    'message/resources.py': 'C02 C01 C35 C18 C12 C25',
    'message/tasks.py': 'C02 C01 C12 C28 C11 C35 C24 C18 C13 C26 C10 C15 '
                        'C29 C25 C09',
    'message/concents.py': 'C02 C01 C12 C29 C11 C35 C18 C13 C26 C10 C15 '
                           'C25 C09',
    'message/__init__.py': 'C02 C23',
    'factories': 'C31 C28',
}


def checks_for(rel):
    for key, value in RELEVANT.items():
        if rel == key or rel.startswith(key + '/'):
            return value.split()
    return ALL


class Finder(ast.NodeVisitor):
    CMP = {
        ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
        ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
        ast.Is: 'is not', ast.IsNot: 'is'}
    BIN = {
        ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*',
        ast.FloorDiv: '*', ast.Mod: '+', ast.BitOr: '&', ast.BitAnd: '|',
        ast.BitXor: '|', ast.LShift: '>>', ast.RShift: '<<', ast.Pow: '*'}

    def __init__(self, source):
        self.source = source
        self.lines = source.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line))
        self.out = []
        self.func = 0

    def span(self, node):
        # columns are utf-8 offsets; the sources are ascii where it matters
        return (
            self.starts[node.lineno - 1] + node.col_offset,
            self.starts[node.end_lineno - 1] + node.end_col_offset)

    def text(self, node):
        a, b = self.span(node)
        return self.source[a:b]

    def add(self, node, what, replacement, span=None):
        a, b = span or self.span(node)
        self.out.append((node.lineno, what, a, b, replacement))

    @staticmethod
    def is_log(node):
        return isinstance(node, ast.Call) and (
            'log' in ast.unparse(node.func).lower().split('.')[0]
            or ast.unparse(node.func).startswith('warnings.'))

    def visit_Call(self, node):
        if self.is_log(node):
            return
        args = list(node.args)
        for pos, arg in enumerate(args):
            if len(args) + len(node.keywords) >= 1:
                rest = [self.text(a) for i, a in enumerate(args) if i != pos]
                rest += [self.keyword(k) for k in node.keywords]
                self.call(node, 'drop argument', rest)
        for pos, _ in enumerate(node.keywords):
            rest = [self.text(a) for a in args]
            rest += [
                self.keyword(k)
                for i, k in enumerate(node.keywords) if i != pos]
            self.call(node, 'drop keyword', rest)
        if len(args) >= 2:
            rest = [self.text(a) for a in args]
            rest[0], rest[1] = rest[1], rest[0]
            rest += [self.keyword(k) for k in node.keywords]
            self.call(node, 'swap arguments', rest)
        self.generic_visit(node)

    def keyword(self, k):
        if k.arg is None:
            return '**' + self.text(k.value)
        return '{}={}'.format(k.arg, self.text(k.value))

    def call(self, node, what, rest):
        self.add(node, what, '{}({})'.format(
            self.text(node.func), ', '.join(rest)))

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            self.add(node, 'comparison', '({} {} {})'.format(
                self.text(node.left), self.CMP[type(node.ops[0])],
                self.text(node.comparators[0])))
            if isinstance(
                    node.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.add(
                    node, 'negate', '(not {})'.format(self.text(node)))
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = ' or ' if isinstance(node.op, ast.And) else ' and '
        self.add(node, 'and/or', '({})'.format(
            op.join('({})'.format(self.text(v)) for v in node.values)))
        for pos, _ in enumerate(node.values):
            op2 = ' and ' if isinstance(node.op, ast.And) else ' or '
            self.add(node, 'drop operand', '({})'.format(op2.join(
                '({})'.format(self.text(v))
                for i, v in enumerate(node.values) if i != pos)))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, 'unary', '({})'.format(self.text(node.operand)))
        self.generic_visit(node)

    def test(self, node):
        if not isinstance(node.test, (ast.Compare, ast.UnaryOp)):
            self.add(node.test, 'negate test', '(not ({}))'.format(
                self.text(node.test)))
        self.add(node.test, 'true', 'True')
        self.add(node.test, 'false', 'False')
        self.generic_visit(node)

    visit_If = visit_While = visit_IfExp = test

    def visit_comprehension(self, node):
        for cond in node.ifs:
            self.add(cond, 'drop filter', 'True')
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, 'bool', repr(not v))
        elif isinstance(v, int):
            self.add(node, 'int+1', '({})'.format(v + 1))
            self.add(node, 'int-1', '({})'.format(v - 1))
        elif isinstance(v, float):
            self.add(node, 'float', '({})'.format(v + 0.5))
        elif isinstance(v, str):
            self.add(node, 'str', repr(v + 'X') if v else repr('X'))
        elif isinstance(v, bytes):
            self.add(node, 'bytes', repr(v + b'X'))

    def visit_JoinedStr(self, node):
        pass

    def visit_BinOp(self, node):
        if not (isinstance(node.op, ast.Mod)
                and isinstance(node.left, ast.Constant)):
            self.add(node, 'binop', '({} {} {})'.format(
                self.text(node.left), self.BIN[type(node.op)],
                self.text(node.right)))
        self.generic_visit(node)

    def sequence(self, node):
        if isinstance(node.ctx, ast.Load):
            left, right = ('[', ']') if isinstance(node, ast.List) \
                else ('(', ')')
            for pos, _ in enumerate(node.elts):
                rest = [
                    self.text(e)
                    for i, e in enumerate(node.elts) if i != pos]
                tail = ',' if rest and left == '(' else ''
                self.add(node.elts[pos], 'drop element', '{}{}{}{}'.format(
                    left, ', '.join(rest), tail, right),
                    span=self.span(node))
        self.generic_visit(node)

    visit_List = visit_Tuple = sequence

    def visit_Set(self, node):
        for pos, _ in enumerate(node.elts):
            rest = [
                self.text(e) for i, e in enumerate(node.elts) if i != pos]
            self.add(node.elts[pos], 'drop element', 'set([{}])'.format(
                ', '.join(rest)), span=self.span(node))
        self.generic_visit(node)

    def visit_Dict(self, node):
        for pos, key in enumerate(node.keys):
            rest = [
                '{}: {}'.format(self.text(k), self.text(v)) if k else
                '**' + self.text(v)
                for i, (k, v) in enumerate(zip(node.keys, node.values))
                if i != pos]
            self.add(key or node.values[pos], 'drop item', '{{{}}}'.format(
                ', '.join(rest)), span=self.span(node))
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if self.is_log(node.value):
            return
        self.add(node, 'drop statement', 'pass')
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.add(node, 'drop raise', 'pass')

    def visit_Return(self, node):
        if node.value is not None and not (
                isinstance(node.value, ast.Constant)
                and node.value.value is None):
            self.add(node, 'return None', 'return None')
        elif node.value is None:
            self.add(node, 'drop return', 'pass')
        self.generic_visit(node)

    def visit_Assign(self, node):
        if any(isinstance(t, (ast.Attribute, ast.Subscript))
               for t in node.targets):
            self.add(node, 'drop assignment', 'pass')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'drop assignment', 'pass')
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, 'continue', 'break')

    def visit_Break(self, node):
        self.add(node, 'break', 'pass')

    def visit_ExceptHandler(self, node):
        if node.type is not None and not isinstance(node.type, ast.Tuple):
            self.add(node.type, 'drop handler', '()')
        self.generic_visit(node)

    def visit_FunctionDef(self, node):
        for dec in node.decorator_list:
            a, b = self.span(dec)
            start = self.source.rindex('@', 0, a)
            self.out.append((dec.lineno, 'drop decorator', start, b, ''))
        for arg in node.args.defaults + node.args.kw_defaults:
            if arg is not None:
                self.visit(arg)
        for sub in node.body:
            self.visit(sub)

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_ClassDef(self, node):
        for dec in node.decorator_list:
            a, b = self.span(dec)
            start = self.source.rindex('@', 0, a)
            self.out.append((dec.lineno, 'drop decorator', start, b, ''))
            self.visit(dec)
        for sub in node.body:
            if isinstance(sub, ast.FunctionDef):
                a, b = self.span(sub)
                if sub.decorator_list:
                    a = self.source.rindex(
                        '@', 0, self.span(sub.decorator_list[0])[0])
                self.out.append((
                    sub.lineno, 'drop method ' + sub.name, a, b, 'pass'))
            elif isinstance(sub, ast.Assign):
                self.add(sub, 'drop class attribute', 'pass')
            self.visit(sub)

    def visit_Module(self, node):
        for sub in node.body:
            if not isinstance(sub, (ast.Import, ast.ImportFrom)):
                self.visit(sub)

    def visit_If_typing(self, node):
        pass


def mutants(rel):
    path = REPO / PKG / rel
    with open(path, newline='') as f:
        source = f.read()
    finder = Finder(source)
    finder.visit(ast.parse(source))
    seen = set()
    for line, what, a, b, new in finder.out:
        text = source[:a] + new + source[b:]
        if text == source or text in seen:
            continue
        seen.add(text)
        try:
            if ast.dump(ast.parse(text)) == ast.dump(ast.parse(source)):
                continue
        except SyntaxError:
            continue
        yield {
            'file': rel, 'line': line, 'what': what,
            'old': source[a:b], 'new': new}, text


def all_files():
    return sorted(
        str(p.relative_to(REPO / PKG)) for p in (REPO / PKG).rglob('*.py')
        if '__pycache__' not in str(p))


def run_check(copy, prop, jobs, tmp):
    env = dict(
        os.environ, MC_REPO=str(copy), MC_STOP='1', TMPDIR=str(tmp),
        VERIF_TIER='quick', VERIF_SEED='1')
    out = tmp / 'out.txt'
    with open(out, 'wb') as f:
        proc = subprocess.Popen(
            ['bash', str(VERIF / 'bin' / 'check'), prop, '--jobs', str(jobs)],
            stdout=f, stderr=subprocess.STDOUT, env=env,
            start_new_session=True, cwd=VERIF)
        try:
            code = proc.wait(timeout=900)
        except subprocess.TimeoutExpired:
            code = 'timeout'
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        proc.wait()
    text = out.read_text(errors='replace')
    for line in text.splitlines():
        if line.startswith('STOPPED'):
            return 'killed', line[8:]
    if code == 1:
        return 'killed', 'VIOLATION'
    if code == 0:
        return 'held', ''
    return 'error {}'.format(code), text[-300:]


def evaluate(args):
    number, info, text, checks, jobs = args
    base = pathlib.Path(tempfile.mkdtemp(prefix='mutant-', dir='/tmp'))
    result = dict(info, number=number, results={})
    try:
        copy = base / 'repo'
        shutil.copytree(
            REPO, copy, symlinks=True,
            ignore=shutil.ignore_patterns('.git', '__pycache__', 'tests'))
        with open(copy / PKG / info['file'], 'w', newline='') as f:
            f.write(text)
        for prop in checks:
            tmp = base / 'tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            tmp.mkdir()
            status, detail = run_check(copy, prop, jobs, tmp)
            if status != 'held':
                result['results'][prop] = (status, detail[:200])
            if status == 'killed':
                result['killed'] = prop
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return result


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('mode')
    parser.add_argument('out', nargs='?')
    parser.add_argument('--files')
    parser.add_argument('--workers', type=int, default=4)
    parser.add_argument('--jobs', type=int, default=2)
    parser.add_argument('--start', type=int, default=0)
    parser.add_argument('--step', type=int, default=1)
    parser.add_argument('--only')
    parser.add_argument('--checks')
    parser.add_argument('--all', action='store_true')
    args = parser.parse_args()
    files = args.files.split(',') if args.files else all_files()
    work = []
    for rel in files:
        for info, text in mutants(rel):
            checks = args.checks.split(',') if args.checks \
                else checks_for(rel)
            if args.all:
                checks = checks + [c for c in CHEAP if c not in checks]
            work.append((len(work), info, text, checks, args.jobs))
    if args.mode == 'list':
        for number, info, _, _, _ in work:
            print(number, info['file'], info['line'], info['what'],
                  repr(info['old'][:60]), '->', repr(info['new'][:60]))
        return
    work = work[args.start::args.step]
    if args.only:
        only = {int(n) for n in args.only.split(',')}
        work = [w for w in work if w[0] in only]
    lock = threading.Lock()
    with open(args.out, 'a') as out, \
            concurrent.futures.ThreadPoolExecutor(args.workers) as pool:
        def one(item):
            result = evaluate(item)
            with lock:
                out.write(json.dumps(result) + '\n')
                out.flush()
        list(pool.map(one, work))


if __name__ == '__main__':
    main()
