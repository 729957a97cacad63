"""mutation testing of the checks (development aid, not a check)

usage: mutate.py WORKDIR OUT.jsonl [stride offset [files...]]

every mutant is one small change of the syntax tree; mutants that pass the stable
tests are run against the checks of the properties the file belongs to
"""
import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {'spectrum.py': 'C01 C03 C02 C04 C07 C21 C15',
         'spectral_data.py': 'C06 C05 C04 C11 C07 C10 C13 C09 C08',
         'material.py': 'C09 C08 C10 C11 C12 C13 C14 C21 C05 C04 C07 C19',
         'io.py': 'C13 C14 C20 C17 C15',
         'catalogue.py': 'C15 C16 C18',
         'config.py': 'C17 C18',
         'scripts/setup_dispersion.py': 'C18'}
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.Pow: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
        ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.And: ast.Or,
        ast.Or: ast.And, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
        ast.NotIn: ast.In}


def skip(node):
    """messages do not matter"""
    if isinstance(node, ast.Raise):
        return True
    if isinstance(node, ast.Call):
        func = node.func
        name = getattr(func, 'attr', getattr(func, 'id', ''))
        return name in ('warn', 'print', 'format')
    if isinstance(node, ast.If) and isinstance(node.test, ast.Name) and \
            node.test.id == 'USE_RUAMEL':
        return 'body'
    return False


def sites(tree):
    """list of (description, mutator(tree))"""
    out = []

    def walk(node, path):
        s = skip(node)
        if s is True:
            return
        for field, value in ast.iter_fields(node):
            if s == 'body' and field == 'body':
                continue
            if isinstance(value, list):
                for i, item in enumerate(value):
                    if isinstance(item, ast.AST):
                        visit(item, path + [(field, i)])
            elif isinstance(value, ast.AST):
                visit(value, path + [(field, None)])

    def visit(node, path):
        kind = type(node)
        line = getattr(node, 'lineno', 0)
        if kind in SWAP:
            out.append(('swap ' + kind.__name__, path, lambda n: SWAP[type(n)]()))
        if isinstance(node, ast.Constant) and path[-1][0] != 'slice_':
            if isinstance(node.value, bool):
                out.append(('flip', path, lambda n: ast.Constant(not n.value)))
            elif isinstance(node.value, (int, float)):
                out.append(('+1', path, lambda n: ast.Constant(n.value + 1)))
                if node.value:
                    out.append(('neg', path, lambda n: ast.Constant(-n.value)))
            elif isinstance(node.value, str) and node.value and \
                    path[-1][0] != 'value':
                out.append(('text', path, lambda n: ast.Constant(n.value + 'x')))
        if isinstance(node, (ast.Assign, ast.AugAssign)) or \
                isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            if not skip(getattr(node, 'value', node)):
                out.append(('drop', path, lambda n: ast.Pass()))
        if isinstance(node, (ast.If, ast.While)) and skip(node) is False:
            out.append(('negate', path, 'test'))
        if isinstance(node, ast.Raise):
            out.append(('no raise', path, lambda n: ast.Pass()))
        if isinstance(node, ast.UnaryOp):
            out.append(('unary', path, lambda n: n.operand))
        walk(node, path)
    walk(tree, [])
    return out


def at(tree, path):
    parent, node = None, tree
    for field, i in path:
        parent = (node, field, i)
        node = getattr(node, field) if i is None else getattr(node, field)[i]
    return parent, node


def mutants(text):
    count = len(sites(ast.parse(text)))
    for k in range(count):
        tree = ast.parse(text)
        what, path, change = sites(tree)[k]
        (holder, field, i), node = at(tree, path)
        line = getattr(node, 'lineno', getattr(holder, 'lineno', 0))
        if change == 'test':
            node.test = ast.UnaryOp(ast.Not(), node.test)
        else:
            new = ast.copy_location(change(node), node) \
                if hasattr(node, 'lineno') else change(node)
            if i is None:
                setattr(holder, field, new)
            else:
                getattr(holder, field)[i] = new
        ast.fix_missing_locations(tree)
        yield k, what, line, ast.unparse(tree)


def run(args):
    base, fname, k, what, line, code = args
    ident = multiprocessing.current_process()._identity[0]
    box = os.path.join(base, 'w{}'.format(ident))
    repo, verif = os.path.join(box, 'repo'), os.path.join(box, 'verif')
    if not os.path.isdir(box):
        os.makedirs(box)
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        subprocess.run(['git', 'clone', '-q', VERIF, verif], check=True)
    path = os.path.join(repo, 'src/dispersion', fname)
    with open(path) as fpt:
        old = fpt.read()
    res = {'file': fname, 'k': k, 'what': what, 'line': line}
    try:
        with open(path, 'w') as fpt:
            fpt.write(code)
        home = os.path.join(box, 'home')
        os.makedirs(os.path.join(home, '.config'), exist_ok=True)
        env = dict(os.environ, HOME=home, PYTHONPATH=os.path.join(repo, 'src'),
                   PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MC_WORKERS='1',
                   OMP_NUM_THREADS='1', DISPERSION_REPO=repo, MC_BUDGET='75')
        with open('/opt/vp/BASELINE.json') as fpt:
            stable = json.load(fpt)['stable']
        test = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-rA', '-p',
             'no:cacheprovider', 'tests'], cwd=repo, env=env, capture_output=True,
            text=True, timeout=300)
        passed = {l.split()[1].split('::')[-1] for l in test.stdout.splitlines()
                  if l.startswith('PASSED')}
        if any(s.split('::')[-1] not in passed for s in stable):
            res['result'] = 'tests'
            return res
        for prop in ORDER[fname].split():
            out = subprocess.run(['bash', 'check.sh', prop, 'quick'], cwd=verif,
                                 env=env, capture_output=True, text=True,
                                 timeout=600)
            if out.returncode:
                res['result'] = prop
                return res
        res['result'] = 'SURVIVED'
    except Exception as exc:
        res['result'] = 'trouble ' + repr(exc)[:200]
    finally:
        with open(path, 'w') as fpt:
            fpt.write(old)
    return res


def main():
    base, outfile = sys.argv[1:3]
    stride = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    offset = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    files = sys.argv[5:] or list(ORDER)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    jobs = []
    for fname in files:
        with open('/repo/src/dispersion/' + fname) as fpt:
            text = fpt.read()
        todo = list(mutants(text))
        print(fname, len(todo))
        jobs += [(base, fname) + m for m in todo[offset::stride]]
    print(len(jobs), 'jobs', flush=True)
    with multiprocessing.Pool(8) as pool:
        for res in pool.imap_unordered(run, jobs):
            with open(outfile, 'a') as fpt:
                fpt.write(json.dumps(res) + "\n")
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
