#!/opt/venv/bin/python
"""developer tool (not used by any check): makes every single-point mutant of
the files of dcf and runs the checks of their properties on it.
tools/mutate.py OUT FILE [FILE ...] ; survivors are written to OUT as diffs"""
import ast
import copy
import difflib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'interpolation.py': 'C01 C28 C02 C06', 'compounding.py': 'C21 C06',
    'daycount.py': 'C21 C15', 'ratingclass.py': 'C22 C28 C31',
    'plans.py': 'C20 C24',
    'curves/curve.py': 'C04 C08 C02 C03 C26 C07 C05 C06 C25 C28 C30 C31 C27',
    'curves/interestratecurve.py': 'C05 C04 C06 C28 C27',
    'curves/creditcurve.py': 'C07 C05 C04 C28 C27',
    'curves/fx.py': 'C09 C08 C28 C31',
    'curves/volatilitycurve.py': 'C23 C04 C28 C27',
    'pricer.py': 'C10 C14 C13 C12 C11 C28 C31',
    'cashflows/cashflow.py': 'C15 C14 C10 C16 C11 C12 C28 C29 C30 C31 C27',
    'cashflows/contingent.py': 'C16 C15 C10 C11 C28 C29 C31 C27',
    'cashflows/payoffs.py': 'C16 C15 C10 C29 C28 C30 C27',
    'cashflows/products.py': 'C24 C28 C31'}
CMP = {ast.Lt: (ast.LtE, ast.Gt), ast.LtE: (ast.Lt,), ast.Gt: (ast.GtE,
       ast.Lt), ast.GtE: (ast.Gt,), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,),
       ast.Is: (ast.IsNot, ast.Eq), ast.IsNot: (ast.Is,), ast.In: (ast.NotIn,),
       ast.NotIn: (ast.In,)}
BIN = {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.Div,),
       ast.Div: (ast.Mult,), ast.Pow: (ast.Mult,)}
SWAP = {'min': 'max', 'max': 'min', 'sorted': 'list',
        'any': 'all', 'all': 'any', 'bisect_left': 'bisect_right',
        'bisect_right': 'bisect_left', 'ceil': 'floor', 'floor': 'ceil'}


def doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


def truth(n):
    """x is None -> not x, x is not None -> bool(x)"""
    x = n.left
    call = ast.Call(ast.Name('bool', ast.Load()), [x], [])
    n.left, n.comparators = call, [ast.Constant(isinstance(
        n.ops[0], ast.IsNot))]
    n.ops[0] = ast.Is()


def edits(tree):
    """yields functions applied to a deep copy at node index"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for c in CMP.get(type(n.ops[0]), ()):
                yield i, (lambda m, c=c: m.ops.__setitem__(0, c())), 'cmp'
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                    n.comparators[0], ast.Constant):
                yield i, truth, 'truth'
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for c in BIN.get(type(n.op), ()):
                yield i, (lambda m, c=c: setattr(m, 'op', c())), 'op'
        if isinstance(n, ast.BinOp):
            yield i, (lambda m: setattr(m, 'left', m.right)), 'right only'
            yield i, (lambda m: setattr(m, 'right', copy.deepcopy(m.left))), \
                'left only'
        if isinstance(n, ast.BoolOp):
            c = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield i, (lambda m, c=c: setattr(m, 'op', c())), 'bool'
            for k in range(len(n.values)):
                yield i, (lambda m, k=k: m.values.pop(k)), 'drop operand'
        if isinstance(n, ast.UnaryOp):
            yield i, (lambda m: setattr(m, 'op', ast.UAdd() if isinstance(
                m.op, ast.USub) else ast.Not())), 'unary'
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if n.value is None or n.value is Ellipsis:
                continue
            if isinstance(n.value, bool):
                yield i, (lambda m: setattr(m, 'value', not m.value)), 'bool'
            else:
                yield i, (lambda m: setattr(m, 'value', m.value + 1)), '+1'
                yield i, (lambda m: setattr(m, 'value', -m.value if m.value
                                            else -1)), 'neg'
        if isinstance(n, (ast.If, ast.IfExp)):
            yield i, (lambda m: setattr(m, 'test', ast.Constant(True))), 'if 1'
            yield i, (lambda m: setattr(m, 'test', ast.Constant(False))), \
                'if 0'
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
            if isinstance(f, ast.Name) and f.id in SWAP:
                yield i, (lambda m: setattr(m.func, 'id',
                                            SWAP[m.func.id])), 'func'
            if len(n.args) == 1 and not n.keywords and isinstance(
                    f, ast.Name) and name not in ('super', 'len', 'iter'):
                yield i, (lambda m: m.__dict__.update(
                    func=ast.Name('_id_', ast.Load()))), 'drop call'
            for k in range(len(n.args) - 1):
                yield i, (lambda m, k=k: m.args.__setitem__(
                    slice(k, k + 2), [m.args[k + 1], m.args[k]])), 'swap args'
            for k in range(len(n.keywords)):
                yield i, (lambda m, k=k: m.keywords.pop(k)), 'drop keyword'
            if len(n.args) > 1:
                yield i, (lambda m: m.args.pop()), 'drop last arg'
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for a in ('lower', 'upper'):
                if getattr(n.slice, a) is not None:
                    yield i, (lambda m, a=a: setattr(m.slice, a, None)), \
                        'slice'
        if hasattr(n, 'body') and isinstance(n.body, list):
            for k, s in enumerate(n.body):
                if doc(s) or isinstance(s, (ast.FunctionDef, ast.ClassDef,
                                            ast.Import, ast.ImportFrom,
                                            ast.Pass)):
                    continue
                yield i, (lambda m, k=k: m.body.__setitem__(
                    k, ast.Pass())), 'drop statement'


class Strip(ast.NodeTransformer):
    pass


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for i, f, kind in edits(tree):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        try:
            f(n)
            t = ast.fix_missing_locations(t)
            out = ast.unparse(t)
            if '_id_' in out:
                out = '_id_ = lambda x: x\n' + out
            compile(out, path, 'exec')
        except Exception:
            continue
        if out in seen:
            continue
        seen.add(out)
        d = [x for x in difflib.unified_diff(base.split('\n'), out.split(
            '\n'), lineterm='', n=2)][2:]
        yield kind, out, '\n'.join(d)


def one(job):
    k, f, kind, src, diff, checks, work = job
    d = '%s/%d' % (work, k)
    shutil.copytree(REPO + '/dcf', d + '/dcf',
                    ignore=shutil.ignore_patterns('__pycache__'))
    open(d + '/dcf/' + f, 'w').write(src)
    env = dict(os.environ, DCF_REPO=d, MC_JOBS='1', MC_STOP='1',
               MC_THIN=os.environ.get('MUT_THIN', '17'))
    rc = 0
    for c in checks.split():
        try:
            rc = subprocess.run(['bash', work + '/verif/run.sh', c], env=env,
                                stdout=subprocess.DEVNULL, timeout=1500,
                                stderr=subprocess.DEVNULL).returncode
        except subprocess.TimeoutExpired:
            rc = 9
        if rc:
            break
    shutil.rmtree(d)
    return rc, c, f, kind, diff


def main(out, files):
    work = '/tmp/mut%d' % os.getpid()
    os.makedirs(work)
    shutil.copytree(ROOT, work + '/verif',
                    ignore=shutil.ignore_patterns('.git', 'seeded'))
    jobs = []
    for f in files:
        c = CHECKS.get(f) or 'C17 C19 C18 C16 C29 C27'
        for kind, src, diff in mutants('%s/dcf/%s' % (REPO, f)):
            if os.environ.get('MUT_KIND', kind) != kind:
                continue
            jobs.append((len(jobs), f, kind, src, diff, c, work))
    print(len(jobs), 'mutants', flush=True)
    killed = 0
    with open(out, 'w') as w, ThreadPoolExecutor(int(os.environ.get(
            'MUT_JOBS', 7))) as ex:
        for n, (rc, c, f, kind, diff) in enumerate(ex.map(one, jobs)):
            if rc:
                killed += 1
            else:
                w.write('=== %s [%s]\n%s\n' % (f, kind, diff))
                w.flush()
            if n % 50 == 0:
                print(n, 'run', killed, 'killed', flush=True)
    print(len(jobs), 'run', killed, 'killed', flush=True)
    shutil.rmtree(work)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
