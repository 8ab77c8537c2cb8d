"""Soundness of the verifier: mutants of the code must leave obligations undischarged.

python3-vt tools/mutate.py FILE FUNCTION-REGEX COUNT SEED KINDS...   (scratch copies only)
"""
import ast
import copy
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitAnd: ast.BitOr, ast.Mod: ast.Mult}


def sites(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in SWAP:
                    out.append((n, 'cmp', i))
                if isinstance(o, (ast.Eq, ast.GtE, ast.LtE)):
                    out.append((n, 'cmp2', i))
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            out.append((n, 'arith', 0))
        elif isinstance(n, ast.BoolOp):
            out.append((n, 'bool', 0))
            out.append((n, 'drop', 0))
            out.append((n, 'drop', 1))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((n, 'not', 0))
            elif isinstance(n.value, int):
                out.append((n, 'int', 1))
                out.append((n, 'int', -1))
            elif isinstance(n.value, (str, bytes)) and n.value:
                out.append((n, 'str', 0))
        elif isinstance(n, ast.If):
            out.append((n, 'if', 0))
        if isinstance(n, (ast.If, ast.For, ast.While, ast.FunctionDef, ast.Try, ast.With)):
            for f in ('body', 'orelse', 'finalbody'):
                for i, s in enumerate(getattr(n, f, []) or []):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((n, 'del', (f, i)))
    return out


def apply(n, op, i):
    if op == 'cmp':
        n.ops[i] = SWAP[type(n.ops[i])]()
    elif op == 'cmp2':
        n.ops[i] = {ast.Eq: ast.GtE, ast.GtE: ast.Eq, ast.LtE: ast.Eq}[type(n.ops[i])]()
    elif op == 'arith':
        n.op = ARITH[type(n.op)]()
    elif op == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op == 'drop':
        del n.values[i]
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif op == 'not':
        n.value = not n.value
    elif op == 'int':
        n.value += i
    elif op == 'str':
        n.value = n.value[:-1] + ('Q' if isinstance(n.value, str) else b'Q')
    elif op == 'if':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif op == 'del':
        f, k = i
        getattr(n, f)[k] = ast.copy_location(ast.Pass(), getattr(n, f)[k])


def layer(j, d, props):
    """Proofs of the report layer."""
    try:
        p = subprocess.run(['python3-vt', '-m', 'engine.layer'] + props, cwd=HERE, capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, JPV_REPO=d))
    except subprocess.TimeoutExpired:
        return ('timeout', j, '')
    lines = p.stdout.splitlines()
    last = [re.match(r'(C\d\d): (\d+)/(\d+) ', l) for l in lines]
    last = [m for m in last if m]
    if len(last) != len(props):
        return ('crash', j, p.stderr[-300:])
    if any('FAILED firm' in l for l in lines):
        return ('killed', j, '')
    if any('FAILED weak' in l for l in lines):
        return ('weak', j, [l for l in lines if 'FAILED weak' in l][0][:110])
    if any(l.startswith('(') and ') None ' not in l for l in lines):
        return ('unsupported', j, [l for l in lines if l.startswith('(') and ') None ' not in l][0][:160])
    return ('SURVIVED', j, p.stdout)


def main():
    file, rx, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    kinds = sys.argv[5:]
    src = open('/repo/jpylyzer/' + file).read()
    tree = ast.parse(src)
    allsites = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and re.fullmatch(rx, n.name):
            allsites += [(n.name, s) for s in sites(n)]
    rnd = random.Random(seed)
    rnd.shuffle(allsites)
    jobs = []
    index = {id(n): k for k, n in enumerate(ast.walk(tree))}
    for name, (n, op, i) in allsites[:count]:
        t2 = copy.deepcopy(tree)
        m = list(ast.walk(t2))[index[id(n)]]
        before = ast.unparse(m).split('\n')[0] if op != 'del' else ast.unparse(getattr(m, i[0])[i[1]])
        apply(m, op, i)
        after = ast.unparse(m).split('\n')[0] if op != 'del' else 'pass'
        jobs.append((name, n.lineno if hasattr(n, 'lineno') else 0, op, i, before, after, ast.unparse(ast.fix_missing_locations(t2))))

    def run(j):
        name, line, op, i, before, after, text = j
        d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
        try:
            shutil.copytree('/repo/jpylyzer', d + '/jpylyzer', ignore=shutil.ignore_patterns('__pycache__'))
            open(d + '/jpylyzer/' + file, 'w').write(text)
            if kinds and re.fullmatch(r'C\d\d', kinds[0]):
                return layer(j, d, kinds)
            ks = kinds or [name.replace('validate_', '')]
            ks = [k if ':' in k else k + ':' + f for k in ks for f in ('jp2', 'jph')]
            try:
                p = subprocess.run(['python3-vt', '-m', 'engine.prove'] + ks, cwd=HERE, capture_output=True, text=True, timeout=400,
                                   env=dict(os.environ, JPV_REPO=d))
                out = p.stdout
            except subprocess.TimeoutExpired:
                return ('timeout', j, '')
            proved = 0
            for l in out.splitlines():
                w = l.split()
                if l[:1] != ' ' and len(w) > 2 and '/' in w[2]:
                    a, b = w[2].split('/')
                    if a == b and int(a) > 0 and l.rstrip().endswith('s') and 'Unsupported' not in l:
                        proved += 1
            if proved == len(ks):
                return ('SURVIVED', j, out)
            if 'Unsupported' in out or 'Need' in out:
                return ('unsupported', j, [l for l in out.splitlines() if 'Unsupp' in l or 'Need' in l][0][-110:])
            if not out.strip():
                return ('crash', j, p.stderr[-200:])
            return ('killed', j, '')
        finally:
            shutil.rmtree(d)
    tally = {}
    with ThreadPoolExecutor(8) as ex:
        for st, j, out in ex.map(run, jobs):
            tally[st] = tally.get(st, 0) + 1
            if st != 'killed':
                print(st, j[0], j[1], j[2], j[3], '|', j[4][:110], '=>', j[5][:110], '|', str(out)[:110].replace('\n', ' ') if st != 'SURVIVED' else '')
    print(tally)


main()
