"""Mutation testing of the checks.

mutate.py PROP [N] [SEED] [PAR] [--files a.py,b.py]
Collects the lines of metku/ that the quick check of PROP executes, plants N
random small mutations on them (one at a time, in scratch copies) and runs the
quick check against each.  Prints one line per mutant: KILLED / SURVIVED /
OTHER rc.  Survivors are either equivalent changes or gaps of the check.
"""
import ast
import glob
import os
import pickle
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PROP = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 15
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
PAR = int(sys.argv[4]) if len(sys.argv) > 4 else 2
FILES = sys.argv[6].split(',') if len(sys.argv) > 6 else None
COV = f'/tmp/mutcov-{PROP}'
REPO = '/repo'


def run(repo, jobs, **env):
    return subprocess.run(
        ['bash', '/verif/run.sh', PROP, '--tier', 'quick', '--jobs', str(jobs)],
        text=True, capture_output=True,
        env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1',
                 VERIF_EVIDENCE='0', **env))


def covered():
    if not os.path.isdir(COV):
        os.makedirs(COV)
        r = run(REPO, 8, VERIF_COV=COV)
        assert r.returncode == 0, r.stdout + r.stderr
    lines = set()
    for f in glob.glob(COV + '/*.pkl'):
        lines |= pickle.load(open(f, 'rb'))
    return lines


SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
       ast.Eq: '!=', ast.NotEq: '=='}
CMP2 = {ast.Lt: '>', ast.LtE: '>', ast.Gt: '<', ast.GtE: '<'}


def candidates(src, tree, lines):
    """(line, start, end, replacement, kind) in character offsets"""
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l))
    seg = src.splitlines(True)

    def pos(line, col):
        b = seg[line - 1].encode()[:col].decode()
        return off[line - 1] + len(b)

    out = []
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or n.lineno not in lines:
            continue
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        text = src[a:b]
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            l = src[pos(n.left.lineno, n.left.col_offset):
                    pos(n.left.end_lineno, n.left.end_col_offset)]
            m0 = pos(n.left.end_lineno, n.left.end_col_offset)
            m1 = pos(n.right.lineno, n.right.col_offset)
            mid = src[m0:m1]
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
                  ast.Pow: '**'}[type(n.op)]
            if op in mid:
                out.append((n.lineno, m0, m1, mid.replace(op, SWAP[type(n.op)], 1), 'op'))
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    out.append((n.lineno, a, b, l, 'dropterm'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m0 = pos(n.left.end_lineno, n.left.end_col_offset)
            m1 = pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            mid = src[m0:m1]
            for tab in (CMP, CMP2):
                if type(n.ops[0]) in tab:
                    new = tab[type(n.ops[0])]
                    old = mid.strip(' ()')
                    out.append((n.lineno, m0, m1, mid.replace(old, new), 'cmp'))
        elif isinstance(n, ast.BoolOp):
            m0 = pos(n.values[0].end_lineno, n.values[0].end_col_offset)
            m1 = pos(n.values[1].lineno, n.values[1].col_offset)
            mid = src[m0:m1]
            x, y = (('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and'))
            out.append((n.lineno, m0, m1, mid.replace(x, y), 'bool'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((n.lineno, a, b, src[pos(n.operand.lineno, n.operand.col_offset):b], 'unary'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            if n.value == 0:
                out.append((n.lineno, a, b, '1', 'const'))
            elif type(n.value) is int and abs(n.value) < 10:
                out.append((n.lineno, a, b, str(n.value + 1), 'const'))
                out.append((n.lineno, a, b, str(n.value - 1), 'const'))
            else:
                out.append((n.lineno, a, b, f'({text} * 1.1)', 'const'))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n.lineno, a, b, str(not n.value), 'const'))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                and n.func.id in ('min', 'max', 'abs', 'sorted') and n.args:
            f0 = pos(n.func.lineno, n.func.col_offset)
            new = {'min': 'max', 'max': 'min', 'abs': '', 'sorted': 'list'}[n.func.id]
            if not (new == 'list' and n.keywords):
                out.append((n.lineno, f0, f0 + len(n.func.id), new, 'call'))
        elif isinstance(n, ast.Assign) or isinstance(n, ast.AugAssign):
            if isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name):
                out.append((n.lineno, a, b, 'pass', 'drop'))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n.lineno, a, b, 'pass', 'drop'))
    return out


def main():
    cov = covered()
    by = {}
    for f, l in cov:
        by.setdefault(f, set()).add(l)
    pool = []
    for f, lines in by.items():
        if FILES and not any(f.endswith(x) for x in FILES):
            continue
        src = open(f).read()
        c = candidates(src, ast.parse(src), lines)
        per = {}
        for k in c:
            per.setdefault(k[0], []).append(k)
        pool += [(f, v) for v in per.values()]
    rnd = random.Random(SEED)
    print(f'{PROP}: {len(cov)} lines, {len(pool)} mutable lines', flush=True)
    rnd.shuffle(pool)
    todo = []
    for f, v in pool:
        m = rnd.choice(v)
        src = open(f).read()
        new = src[:m[1]] + m[3] + src[m[2]:]
        line = src.splitlines()[m[0] - 1]
        if 'print' in line or 'plot' in line or 'time' in line:
            continue
        try:
            compile(new, f, 'exec')
        except SyntaxError:
            continue
        if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
            continue
        todo.append((f, m, new))
        if len(todo) == N:
            break

    def one(i):
        f, m, new = todo[i]
        W = f'/tmp/mut-{PROP}-{i}'
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        shutil.copytree('/repo/metku', W + '/metku', symlinks=True)
        open(f.replace('/repo', W, 1), 'w').write(new)
        r = run(W, 8 // PAR)
        shutil.rmtree(W)
        s = {0: 'SURVIVED', 1: 'KILLED'}.get(r.returncode, f'OTHER{r.returncode}')
        old = open(f).read()
        print(f'{s} {f[len("/repo/metku/"):]}:{m[0]} {m[4]} '
              f'[{old[m[1]:m[2]].strip()[:70]!r} -> {m[3].strip()[:70]!r}]'
              + (' | ' + old.splitlines()[m[0] - 1].strip()[:110] if s != 'KILLED' else ''),
              flush=True)
        return s
    with ThreadPoolExecutor(PAR) as ex:
        res = list(ex.map(one, range(len(todo))))
    print(PROP, {s: res.count(s) for s in set(res)}, flush=True)


main()
