#!/usr/bin/env python3
"""Development aid: mutates the package in scratch copies, keeps the mutants the repository's
tests do not notice, and runs a short version of every check on them.
   mutate.py OUT.jsonl COUNT SEED [file ...]
Each result line: file, line, operator, tests passed, first property that noticed."""
import ast, copy, json, os, random, shutil, subprocess, sys, multiprocessing

REPO = '/repo'
PY = '/opt/venv-pypy/bin/python'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['__main__', 'bitstring', 'decoder', 'disasm', 'formatter', 'helpers', 'instructions',
         'mock_cpu', 'model', 'registers', 'utilities']
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
        ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.LShift: ast.RShift,
        ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
        ast.BitXor: ast.BitOr, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add,
        ast.And: ast.Or, ast.Or: ast.And}
ATTR = {'signed': 'unsigned', 'unsigned': 'signed', 'n': 'm', 'm': 'n', 'd': 'n', 't': 'n',
        'a': 'm', 'width': 'unsigned', 'start': 'length', 'length': 'start',
        'pc': 'pc_for_instr', 'pc_for_instr': 'pc', 'zero_extend': 'sign_extend',
        'sign_extend': 'zero_extend', 'read32': 'read16', 'wback': 'index', 'index': 'add',
        'add': 'index', 'setflags': 'wback'}


def mutants(tree, rnd):
    """yield (line, description, function applying it to a deep copy by node index)"""
    nodes = list(ast.walk(tree))
    for k, x in enumerate(nodes):
        ln = getattr(x, 'lineno', 0)
        if isinstance(x, ast.Constant) and type(x.value) is int:
            for d in (1, -1):
                yield ln, 'const %r%+d' % (x.value, d), k, ('const', x.value + d)
        elif isinstance(x, ast.Constant) and x.value in (True, False) and type(x.value) is bool:
            yield ln, 'bool', k, ('const', not x.value)
        elif isinstance(x, ast.Compare):
            for j, o in enumerate(x.ops):
                if type(o) in SWAP:
                    yield ln, 'cmp ' + type(o).__name__, k, ('cmp', j)
        elif isinstance(x, (ast.BinOp, ast.AugAssign)) and type(x.op) in SWAP:
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and \
                    isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
                continue
            yield ln, 'op ' + type(x.op).__name__, k, ('op',)
        elif isinstance(x, ast.BoolOp):
            yield ln, 'boolop', k, ('op',)
            for j in range(len(x.values)):
                yield ln, 'drop operand %d' % j, k, ('dropval', j)
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.Invert, ast.USub)):
            yield ln, 'drop unary', k, ('unary',)
        elif isinstance(x, (ast.If, ast.IfExp, ast.While)):
            yield ln, 'cond True', k, ('cond', True)
            yield ln, 'cond False', k, ('cond', False)
        elif isinstance(x, ast.Attribute) and x.attr in ATTR:
            yield ln, 'attr %s' % x.attr, k, ('attr', ATTR[x.attr])
        elif isinstance(x, ast.ExceptHandler) and x.type is not None:
            yield ln, 'except all', k, ('exc',)
        elif isinstance(x, ast.Call) and len(x.args) >= 2:
            yield ln, 'swap args', k, ('args',)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                continue
            if isinstance(x, ast.Module):
                continue
            for j, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise,
                                  ast.Delete, ast.If, ast.For)):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    yield s.lineno, 'delete %s' % type(s).__name__, k, ('del', f, j)
                if j + 1 < len(b) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and \
                        not isinstance(b[j + 1], (ast.FunctionDef, ast.ClassDef)):
                    yield s.lineno, 'swap with next', k, ('swap', f, j)


def apply(tree, k, how):
    t = copy.deepcopy(tree)
    x = list(ast.walk(t))[k]
    if how[0] == 'const':
        x.value = how[1]
    elif how[0] == 'cmp':
        x.ops[how[1]] = SWAP[type(x.ops[how[1]])]()
    elif how[0] == 'op':
        x.op = SWAP[type(x.op)]()
    elif how[0] == 'dropval':
        del x.values[how[1]]
        if len(x.values) == 1:
            x.values = x.values * 2
    elif how[0] == 'unary':
        x.op = ast.UAdd() if not isinstance(x.op, ast.Not) else x.op
        if isinstance(x.op, ast.Not):
            x.operand = ast.UnaryOp(ast.Not(), x.operand)
    elif how[0] == 'cond':
        x.test = ast.Constant(how[1])
    elif how[0] == 'attr':
        x.attr = how[1]
    elif how[0] == 'exc':
        x.type = ast.Name('Exception', ast.Load())
    elif how[0] == 'args':
        x.args[0], x.args[1] = x.args[1], x.args[0]
    elif how[0] == 'del':
        getattr(x, how[1])[how[2]] = ast.Pass()
    elif how[0] == 'swap':
        b = getattr(x, how[1])
        b[how[2]], b[how[2] + 1] = b[how[2] + 1], b[how[2]]
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def source(f):
    p = os.path.join(REPO, 'cmdis', f + '.py')
    if f == '__main__':
        code = ("import sys;sys.path.insert(0,%r);import core;core.convert_main('/tmp/mut/conv')"
                % os.path.join(V, 'sim'))
        shutil.rmtree('/tmp/mut/conv', ignore_errors=True)
        os.makedirs('/tmp/mut/conv/cmdis')
        shutil.copyfile(p, '/tmp/mut/conv/cmdis/__main__.py')
        subprocess.check_call([PY, '-c', code])
        p = '/tmp/mut/conv/cmdis/__main__.py'
    return open(p).read()


def work(job):
    n, f, line, desc, new, old = job
    me = multiprocessing.current_process()._identity[0]
    W = '/tmp/mut/w%d' % me
    if not os.path.isdir(W):
        subprocess.check_call(['cp', '-a', REPO, W])
    p = os.path.join(W, 'cmdis', f + '.py')
    keep = open(p).read()
    res = {'n': n, 'file': f, 'line': line, 'op': desc, 'tests': False, 'by': None}
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', CMDIS_REPO=W,
               SETUPTOOLS_SCM_PRETEND_VERSION='0.1')
    try:
        open(p, 'w').write(new)
        if f != '__main__':
            try:
                t = subprocess.run([PY, '-m', 'pytest', '-q', '--tb=no', '-x', '-p',
                                    'no:cacheprovider'], cwd=W, env=env, timeout=120,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except subprocess.TimeoutExpired:
                return res
            if t.returncode:
                return res
        res['tests'] = True
        try:
            c = subprocess.run([PY, os.path.join(V, 'tools', 'minicheck.py'), f], env=env,
                               timeout=1500, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res['by'] = c.stdout.decode().strip().split('\n')[-1][:400]
        except subprocess.TimeoutExpired:
            res['by'] = 'TIMEOUT'
        d = subprocess.run(['diff', '-u', '-', p], input=ast.unparse(ast.parse(old)).encode(),
                           stdout=subprocess.PIPE).stdout.decode().split('\n')
        res['diff'] = [l for l in d if l[:1] in '+-' and not l[:3] in ('+++', '---')]
        res['ctx'] = [l for l in d if l[:2] == '@@']
        return res
    finally:
        open(p, 'w').write(keep)


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or FILES
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        src = source(f)
        tree = ast.parse(src)
        ms = list(mutants(tree, rnd))
        rnd.shuffle(ms)
        print(f, len(ms), flush=True)
        for line, desc, k, how in ms[:count]:
            jobs.append((len(jobs), f, line, desc, apply(tree, k, how), src))
    rnd.shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    with open(out, 'a') as fh, multiprocessing.Pool(int(os.environ.get('J', '8'))) as pool:
        for r in pool.imap_unordered(work, jobs):
            fh.write(json.dumps(r) + '\n')
            fh.flush()


if __name__ == '__main__':
    main()
