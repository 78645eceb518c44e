"""Mutation testing with mutants that act on few inputs only.

mutall.py N SEED PAR [substring of file names]
Random small mutations on lines of metku/ that any quick check executes; every
check that executes the line is tried (most specific first, at most 8) until one
kills the mutant.  Default arguments, data tables and drawing are left out.
"""
import ast
import glob
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

N, SEED, PAR = (int(a) for a in sys.argv[1:4])
SUB = sys.argv[4] if len(sys.argv) > 4 else ''
MAXC = int(os.environ.get("MAXC", 3))
EVERY = int(os.environ.get("EVERY", 15))
sys.argv = ['x', 'none']
here = os.path.dirname(os.path.abspath(__file__))
src = open(here + '/mutate.py').read().replace('\nmain()\n', '\n')
ns = {}
exec(compile(src, 'mutate', 'exec'), ns)
IDS = sorted(os.path.basename(f)[:-3] for f in glob.glob(here + '/../checks/[A-Z]*.py'))


def run(pid, repo, jobs, **env):
    return subprocess.run(['bash', here + '/../run.sh', pid, '--tier', 'quick', '--jobs', str(jobs)], text=True, capture_output=True,
                          env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_EVIDENCE='0', **env))


def cov(pid):
    d = f'/tmp/mutcov-{pid}'
    if not os.path.isdir(d):
        os.makedirs(d)
        r = run(pid, '/repo', 8, VERIF_COV=d)
        assert r.returncode == 0, r.stdout + r.stderr
    s = set()
    for f in glob.glob(d + '/*.pkl'):
        s |= pickle.load(open(f, 'rb'))
    return s


by = {}
for pid in IDS:
    for f, l in cov(pid):
        by.setdefault(f, {}).setdefault(l, set()).add(pid)
pool = []
SKIP = re.compile(r'^\s*(def |class |print|if verb|raise|import|from)|plot|draw|imp_factor|warn')
for f, lines in by.items():
    if SUB and SUB not in f or '/profiles/' in f or '/tests/' in f or 'test' in os.path.basename(f):
        continue
    text = open(f).read()
    rows = text.splitlines()
    skip = set()
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, ast.FunctionDef) and ('draw' in n.name or 'print' in n.name or 'plot' in n.name or n.name in ('__repr__', '__str__')):
            skip |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for d in n.args.defaults:
                skip |= set(range(d.lineno, d.end_lineno + 1))
    per = {}
    for k in ns['candidates'](text, ast.parse(text), {l for l in lines if l not in skip and not SKIP.search(rows[l - 1])}):
        per.setdefault(k[0], []).append(k)
    pool += [(f, l, v) for l, v in per.items()]
size = {p: {f: len([l for l in by[f] if p in by[f][l]]) for f in by} for p in IDS}
total = {p: sum(size[p].values()) or 1 for p in IDS}
print(len(pool), 'mutable lines', flush=True)
HELP = """
def __rare__(loc, _s=__SALT__):
    import zlib, os
    out = []
    def feed(v, d):
        t = type(v).__name__
        if t in ('int', 'float', 'bool', 'str', 'float64', 'int64', 'NoneType'):
            out.append(t[:3] + repr(v))
        elif t in ('list', 'tuple') and d:
            for x in v: feed(x, d - 1)
        elif t == 'ndarray':
            out.append(repr(v.tolist()))
        elif t == 'dict' and d:
            for k in v: feed(k, d - 1); feed(v[k], d - 1)
        elif d and hasattr(v, '__dict__'):
            for k, x in list(vars(v).items()): feed(x, d - 1)
    for k in sorted(loc): feed(loc[k], 2)
    r = zlib.crc32(('|'.join(out) + str(_s)).encode()) % __EVERY__ == 0
    if r:
        open('__MARK__', 'w').close()
    return r
"""


def rare(text, new, l):
    """the mutated body of the function acts on one of EVERY sets of inputs"""
    t0, t1 = ast.parse(text), ast.parse(new)

    def inner(t):
        best = None
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef) and n.lineno <= l <= n.end_lineno:
                if best is None or n.lineno >= best.lineno:
                    best = n
        return best
    a, b = inner(t0), inner(t1)
    if a is None or b is None or a.name != b.name:
        return None
    if any(isinstance(n, (ast.Yield, ast.Nonlocal, ast.Global)) for n in ast.walk(a)):
        return None
    body = list(b.body) + [ast.Return(value=None)]
    test = ast.parse('__rare__(locals())', mode='eval').body
    a.body = [ast.If(test=test, body=body, orelse=[])] + a.body
    ast.fix_missing_locations(t0)
    return ast.unparse(t0) + HELP


rnd = random.Random(SEED)
# files weighted equally per line, but no more than 1/8 of the mutants from one file
rnd.shuffle(pool)
todo, cnt = [], {}
for f, l, v in pool:
    if cnt.get(f, 0) >= max(3, N // 8):
        continue
    m = rnd.choice(v)
    text = open(f).read()
    new = text[:m[1]] + m[3] + text[m[2]:]
    try:
        if ast.dump(ast.parse(new)) == ast.dump(ast.parse(text)):
            continue
    except SyntaxError:
        continue
    new = rare(text, new, l)
    if new is None:
        continue
    cnt[f] = cnt.get(f, 0) + 1
    todo.append((f, l, m, new, text))
    if len(todo) == N:
        break


def one(i):
    f, l, m, new, text = todo[i]
    W = f'/tmp/mutr-{SEED}-{i}'
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    shutil.copytree('/repo/metku', W + '/metku', symlinks=True)
    mark = f'/tmp/mutmark-{SEED}-{i}'
    open(f.replace('/repo', W, 1), 'w').write(new.replace('__SALT__', str(i)).replace('__EVERY__', str(EVERY)).replace('__MARK__', mark))
    ps = sorted(by[f][l], key=lambda p: -size[p][f] / total[p])[:MAXC]
    res = 'SURVIVED'
    for p in ps:
        r = run(p, W, 8 // PAR)
        if r.returncode == 1:
            res = f'KILLED by {p}'
            break
        if r.returncode:
            res = f'OTHER{r.returncode} {p}'
    shutil.rmtree(W)
    if not os.path.exists(mark):
        res = 'NEVER ' + res
    print(f'{res} {f[len("/repo/metku/"):]}:{l} {m[4]} [{text[m[1]:m[2]].strip()[:70]!r} -> {m[3].strip()[:70]!r}]'
          + (f' | {text.splitlines()[l - 1].strip()[:110]} | {ps}' if 'KILLED' not in res else ''), flush=True)
    return res.split()[0]


with ThreadPoolExecutor(PAR) as ex:
    res = list(ex.map(one, range(len(todo))))
print({s: res.count(s) for s in set(res)}, flush=True)
