"""O02: optimization solvers."""
import itertools
import random

from hypothesis import strategies as st

from lib.harness import Check, Violation, Skip, check_close, check_vec, need

CHECK = Check('O02', 'at least two free variables and an active constraint at the optimum',
              ['convex problems with a known optimum, well conditioned and scaled around one',
               'discrete problems small enough to be enumerated',
               'equality constraints, at most one per variable'])
U = st.floats(0, 1)
UV = st.lists(U, min_size=4, max_size=4)
TYPES = st.sampled_from(['<', '<', '>', '>', '='])


def con(types=TYPES, lo=0):
    return st.lists(st.fixed_dictionaries({
        't': types, 'a': UV, 'act': st.booleans(), 'lam': U, 'slack': U, 'sgn': st.booleans()}), min_size=lo, max_size=3)


CONVEX = {'n': st.integers(1, 3), 'lb': UV, 'w': UV, 'xs': UV, 'Q': UV, 'bnd': st.lists(
    st.sampled_from([0, 0, 0, -1, 1]), min_size=4, max_size=4), 'mu': UV, 'x0': UV,
    'ball': st.one_of(st.none(), st.fixed_dictionaries({'p': UV, 'q': UV, 'lam': U, 't': st.sampled_from('<>')})),
    'lock': st.one_of(st.none(), st.fixed_dictionaries({'at': st.integers(0, 3), 'v': U})),
    'max': st.booleans()}


class Convex:
    """min f with known solution xs: f is built so that xs satisfies the
    optimality conditions with the chosen multipliers."""

    def __init__(self, k, linear=False):
        import numpy as np
        from metku.optimization import structopt as so
        from metku.optimization.objective import LinearObjective, ObjectiveFunction
        n = self.n = k['n']
        A = lambda q: np.array(k[q][:n])
        lb = -4 + 5 * A('lb')
        w = 2 + 4 * A('w')
        ub = lb + w
        xs = lb + (0.15 + 0.7 * A('xs')) * w
        grad = np.zeros(n)
        for i in range(n):
            if k['bnd'][i]:
                xs[i] = lb[i] if k['bnd'][i] < 0 else ub[i]
                grad[i] -= k['bnd'][i] * (0.2 + k['mu'][i])
        rows, self.active = [], 0
        free = [i for i in range(n) if not k['bnd'][i]]
        for j, c in zip(free, k['cons']):
            a = 0.25 * (np.array(c['a'][:n]) - 0.5) * 2
            a[j] = 1.0
            if c['sgn']:
                a = -a
            act = c['act'] or c['t'] == '='
            lam = 0.2 + c['lam'] if act else 0
            b = a @ xs
            if not act:
                b += (0.1 + c['slack']) * (1 if c['t'] == '<' else -1)
            if c['t'] == '=':
                lam = c['lam'] - 0.5
            grad += lam * a * (1 if c['t'] == '>' else -1)
            self.active += act
            rows.append((a, b, c['t']))
        self.ball = None
        if k.get('ball') and not linear:
            # convex ball constraint, active at xs
            p = xs + 2 * (np.array(k['ball']['p'][:n]) - 0.5)
            p = np.where(np.abs(p - xs) < 0.3, xs + 0.5, p)
            q = 0.3 + np.array(k['ball']['q'][:n])
            r = (q * (xs - p) ** 2).sum()
            grad -= (0.2 + k['ball']['lam']) * 2 * q * (xs - p)
            self.ball = (p, q, r, k['ball']['t'])
            self.active += 1
        self.rows, self.lb, self.ub, self.xs = rows, lb, ub, xs
        lock = k.get('lock')
        pos = self.pos = None if lock is None else lock['at'] % (n + 1)
        v = self.v = 0.0 if lock is None else 3 * lock['v'] - 1.5
        self.sign = sign = -1 if k['max'] else 1
        if linear:
            c = grad
            self.f = lambda x: float(c @ np.asarray(x, dtype=float) + 2 * v * (pos is not None))
            full = np.insert(c, pos, 2.0) if pos is not None else c
            obj = LinearObjective('f', sign * full, 'MAX' if k['max'] else 'MIN')
        else:
            Q = 0.6 + 2 * A('Q')
            tgt = xs - grad / (2 * Q)
            self.f = lambda x: float((Q * (np.asarray(x, dtype=float) - tgt) ** 2).sum() + v * v)

            def fun(x):
                x = np.asarray(x, dtype=float)
                e = 0.0
                if pos is not None:
                    e, x = x[pos] ** 2, np.delete(x, pos)
                return sign * float((Q * (x - tgt) ** 2).sum() + e)
            obj = ObjectiveFunction('f', fun, 'MAX' if k['max'] else 'MIN')
        P = self.P = so.OptimizationProblem('p')
        P.prob_type = 'continuous'
        vs = [so.Variable(f'x{i}', float(lb[i]), float(ub[i]), value=float((lb[i] + ub[i]) / 2)) for i in range(n)]
        if pos is not None:
            locked = so.Variable('fixed', -2, 2, value=0.0)
            vs.insert(pos, locked)
        for q in vs:
            P.add(q)
        P.add(obj)
        for a, b, typ in rows:
            if pos is not None:
                a, b = np.insert(a, pos, 0.7), b + 0.7 * v
            P.add(so.LinearConstraint(a, b, typ, 'c'))
        if self.ball:
            p_, q_, r_, t_ = self.ball
            s_ = 1 if t_ == '<' else -1

            def g(x):
                x = np.asarray(x, dtype=float)
                if pos is not None:
                    x = np.delete(x, pos)
                return s_ * float((q_ * (x - p_) ** 2).sum() - r_)
            P.add(so.NonLinearConstraint(g, t_, 'ball'))
        if pos is not None:
            locked.lock(v)
        self.fs = self.f(xs)
        self.x0 = lb + (0.05 + 0.9 * np.array(k['x0'][:n])) * w

    def violation(self, x):
        import numpy as np
        x = np.asarray(x, dtype=float)
        g = [max(0, a @ x - b) if t == '<' else max(0, b - a @ x) if t == '>' else abs(a @ x - b)
             for a, b, t in self.rows]
        if self.ball:
            p, q, r, _ = self.ball
            g.append(max(0, (q * (x - p) ** 2).sum() - r))
        return max(g, default=0.0)

    def check(self, name, f, x, ftol, gtol, xtol=None):
        import numpy as np
        need(x is not None and len(x) == self.n, f'{name}: no solution')
        x = np.asarray(x, dtype=float)
        need(np.all(x >= self.lb - 1e-7) and np.all(x <= self.ub + 1e-7), f'{name}: {x} out of bounds')
        need(self.violation(x) <= gtol, lambda: f'{name}: violation {self.violation(x):.3g} at {x}')
        if f is not None:
            check_close(f, self.f(x), f'{name}: reported objective', 1e-6, 1e-6)
        check_close(self.P.obj(x), self.f(x), f'{name}: objective', 1e-9, 1e-9)
        d = self.f(x) - self.fs
        need(d <= ftol, lambda: f'{name}: objective {self.f(x):.6g} while {self.fs:.6g} is attainable, x {x}, '
             f'optimum {self.xs}')


@CHECK.clause('convex', st.fixed_dictionaries({**CONVEX, 'cons': con()}), quick=500, thorough=12000,
              rule='convex quadratic problems with linear and quadratic constraints and known optimum: '
              'SLSQP, trust region')
def convex(k):
    import numpy as np
    from metku.optimization.solvers import SLSQP, TrustRegionConstr
    c = Convex(k)
    scale = 1 + abs(c.fs) + abs(c.f(c.x0) - c.fs)
    x0 = c.x0.copy()
    s = SLSQP()
    f, x = s.solve(c.P, x0=x0)
    need(s.feasible, 'SLSQP did not converge')
    c.check('SLSQP', f, x, 2e-3 * scale, 1e-3)
    need(c.P.feasible(x) or c.violation(x) > 5e-5, 'feasible design reported infeasible')
    check_vec(x0, c.x0, 'starting point')
    if k['mu'][0] > 0.7:
        s = TrustRegionConstr()
        f, x = s.solve(c.P, x0=x0, maxiter=400)
        if s.feasible:
            c.check('trust region', f, x, 2e-2 * scale, 1e-3)
    return c.active and c.n > 1


@CHECK.clause('mma', st.fixed_dictionaries({**CONVEX, 'cons': con(st.sampled_from('<>'))}), quick=120,
              thorough=3000, rule='MMA on convex problems, from a feasible design')
def mma(k):
    from metku.optimization.solvers import MMA
    # the approximations are conservative for '<' only, and need a feasible start
    if k['ball']:
        k = dict(k, ball=dict(k['ball'], t='<'))
    c = Convex(k)
    x0 = next((y for y in (c.xs + r * (c.x0 - c.xs) for r in (1, 0.5, 0.25, 0.1)) if c.violation(y) <= 0), c.xs)
    s = MMA()
    f, x = s.solve(c.P, x0=x0, maxiter=40)
    scale = 1 + abs(c.fs) + abs(c.f(c.x0) - c.fs)
    c.check('MMA', f, x, 0.2 * scale, 2e-3)
    history(s, c, x, f)
    need(all(q.problem is c.P for q in c.P.cons), 'constraints belong to another problem')
    return c.active and c.n > 1


def history(s, c, x, f):
    """The reported design is the best feasible one of the iterates."""
    import numpy as np
    for y in s.xvals[1:]:
        need(np.all(np.asarray(y) >= c.lb - 1e-6) and np.all(np.asarray(y) <= c.ub + 1e-6), 'iterate out of bounds')
        if c.violation(y) < 2e-5:
            need(c.violation(x) < 3e-4, 'a feasible iterate exists but the result is infeasible')
            need(c.f(y) >= f - 1e-6 * (1 + abs(f)), lambda: f'iterate {y} with {c.f(y)} is better than the result {f}')


def coincidence(s):
    """The iteration stops when two distant designs happen to have the same objective."""
    import numpy as np
    if len(s.fvals) > 1 and abs(s.fvals[-1] - s.fvals[-2]) < 2e-3 * (1e-6 + abs(s.fvals[-1])) and np.abs(
            np.array(s.xvals[-1]) - s.xvals[-2]).max() > 0.05:
        raise Skip('two designs with the same objective in a row')


@CHECK.clause('slp', st.fixed_dictionaries({**CONVEX, 'cons': con(lo=1), 'second': st.booleans(), 'lin': st.booleans(),
                                            'beta': st.booleans()}),
              quick=300, thorough=8000, rule='SLP: linear problems are solved exactly, the best feasible iterate is '
              'reported otherwise')
def slp(k):
    import numpy as np
    from metku.optimization.solvers import SLP
    c = Convex(k, linear=k['lin'])
    if not c.P.cons:
        raise Skip('no constraints')
    s = SLP(move_limits=(0.3, 0.3), gamma=1e-2, beta=10 if k['beta'] else 0)
    x0 = c.x0.copy()
    if not k['beta']:
        x0 = c.xs + 0.01 * (np.clip(c.x0, c.lb, c.ub) - c.xs)
    start = x0.copy()
    f, x = s.solve(c.P, x0=x0, maxiter=60)
    check_vec(x0, start, 'starting point')
    check_close(f, c.P.obj(x), 'reported objective', 1e-9, 1e-9)
    f = c.f(x)
    if k['lin'] and k['beta']:
        coincidence(s)
        c.check('SLP', None, x, 1e-5 * (1 + abs(c.fs)), 2e-4)
    need(np.all(x >= c.lb - 1e-7) and np.all(x <= c.ub + 1e-7), 'out of bounds')
    history(s, c, x, f)
    if k['second'] and k['lin'] and k['beta']:
        k2 = dict(k, xs=[1 - a for a in k['xs']], max=not k['max'])
        c2 = Convex(k2, linear=True)
        s.move_limits = np.array([0.3, 0.3])
        s.beta, s.C = 10, 2e5
        f2, y = s.solve(c2.P, x0=c2.x0, maxiter=60)
        coincidence(s)
        c2.check('SLP, second problem', None, y, 1e-5 * (1 + abs(c2.fs)), 2e-4)
    return c.active and c.n > 1


@CHECK.clause('lp', st.fixed_dictionaries({**CONVEX, 'n': st.integers(1, 4), 'cons': con(lo=1), 'infeasible': st.booleans()}),
              quick=600, thorough=15000, rule='linear programs with known optimum, feasible and infeasible')
def lp(k):
    import numpy as np
    from metku.optimization import structopt as so
    from metku.optimization.solvers.lp import LP
    c = Convex(k, linear=True)
    bad = k['infeasible']
    if bad:
        # x0 below its lower bound
        a = np.zeros(len(c.P.all_vars))
        i = c.P.all_vars.index(c.P.vars[0])
        a[i] = 1.0
        c.P.add(so.LinearConstraint(a, c.lb[0] - 1, '<', 'bad'))
    for algo in ('ortools', 'gurobi'):
        s = LP(algo)
        try:
            s.solve(c.P)
        except Exception as e:
            if 'Gurobi' in type(e).__name__:
                continue
            raise
        if bad:
            need(not s.feasible and len(s.X) == 0, f'{algo}: infeasible problem reported as solved')
        else:
            need(s.feasible, f'{algo}: not solved')
            c.check(f'LP {algo}', None, s.X, 1e-6 * (1 + abs(c.fs)), 1e-6)
    return not bad and c.active and c.n > 1


# --------------------------------------------------------------- discrete
DISC = {'vals': st.lists(st.lists(st.integers(-300, 500).map(lambda v: v / 100), min_size=2, max_size=5,
                                  unique=True), min_size=1, max_size=3),
        'cons': st.lists(st.fixed_dictionaries({'t': st.sampled_from('<>'), 'a': st.lists(
            st.floats(-2, 2).map(lambda v: round(v, 1)), min_size=3, max_size=3), 's': U}), max_size=3),
        'xs': st.lists(st.integers(0, 4), min_size=3, max_size=3),
        'c': st.lists(st.floats(0.5, 3), min_size=3, max_size=3),
        'sg': st.lists(st.sampled_from([1, -1]), min_size=3, max_size=3), 'off': UV, 'lin': st.booleans()}


def discrete(k, linear):
    import numpy as np
    from metku.optimization import structopt as so
    from metku.optimization.objective import ObjectiveFunction
    vals = [sorted(v) for v in k['vals']]
    for v in vals:
        for a, b in zip(v, v[1:]):
            if b - a < 0.05:
                raise Skip('values too close to each other')
    n = len(vals)
    xs = np.array([v[k['xs'][i] % len(v)] for i, v in enumerate(vals)])
    rows = []
    for c in k['cons']:
        a = np.array(c['a'][:n])
        if not np.any(a):
            continue
        rows.append((a, float(a @ xs + (0.02 + c['s']) * (1 if c['t'] == '<' else -1)), c['t']))
    q = np.array(k['c'][:n])
    if linear:
        q = q * np.array(k['sg'][:n])
        f = lambda x: float(q @ np.asarray(x, dtype=float))
    else:
        tgt = xs + 4 * (np.array(k['off'][:n]) - 0.5)
        f = lambda x: float((q * (np.asarray(x, dtype=float) - tgt) ** 2).sum())
    slack = lambda x: min([b - a @ np.array(x) if t == '<' else a @ np.array(x) - b for a, b, t in rows], default=1)
    grid = list(itertools.product(*vals))
    if any(abs(slack(x)) < 2e-3 for x in grid):
        raise Skip('a design at the limit of feasibility')
    best = min(f(x) for x in grid if slack(x) > 0)
    P = so.OptimizationProblem('p')
    P.prob_type = 'discrete'
    for i in range(n):
        P.add(so.DiscreteVariable(f'x{i}', values=vals[i], value=vals[i][-1]))
    P.add(ObjectiveFunction('f', f))
    for a, b, typ in rows:
        P.add(so.LinearConstraint(a, b, typ, 'c'))
    return P, vals, f, slack, best, grid


def judge(name, P, vals, f, slack, best, ff, x, exact):
    need(x is not None and len(x) == len(vals), f'{name}: no solution')
    x = [float(a) for a in x]
    for a, v in zip(x, vals):
        need(min(abs(a - b) for b in v) <= 1.001e-3, f'{name}: {a} is not one of {v}')
    need(slack(x) > -1e-3, lambda: f'{name}: {x} is infeasible by {-slack(x):.3g}')
    check_close(ff, f(x), f'{name}: reported objective', 1e-4, 1e-4)
    if exact:
        need(f(x) <= best + exact * (1 + abs(best)), lambda: f'{name}: {x} gives {f(x):.6g}, the optimum is {best:.6g}')


def external_error(m):
    """True when the solver library itself solves a model wrongly."""
    from ortools.linear_solver import linear_solver_pb2, pywraplp
    q = linear_solver_pb2.MPModelProto()
    m.ExportModelToProto(q)
    t = pywraplp.Solver.CreateSolver('SCIP')
    t.LoadModelFromProto(q)
    if t.Solve() != 0:
        return False
    a, b = t.Objective().Value(), m.Objective().Value()
    return abs(a - b) > 1e-5 * (1 + abs(a))


@CHECK.clause('mislp', st.fixed_dictionaries(DISC), quick=250, thorough=6000,
              rule='mixed-integer SLP against enumeration (linear) and feasibility (quadratic)')
def mislp(k):
    from metku.optimization.solvers import MISLP
    P, vals, f, slack, best, grid = discrete(k, k['lin'])
    x0 = [v[-1] for v in vals]
    s = MISLP(move_limits=(1.0, 1.0))
    r = s.solve(P, x0=x0, maxiter=12)
    try:
        judge('MISLP', P, vals, f, slack, best, *r, exact=2e-3 if k['lin'] else None)
    except Violation:
        if any(external_error(m) for m in s.milps):
            raise Skip('CBC does not solve the subproblem')
        raise
    return len(P.cons) > 0 and len(vals) > 1


@CHECK.clause('bnb', st.fixed_dictionaries(DISC), quick=300, thorough=8000,
              rule='branch and bound against enumeration')
def bnb(k):
    P, vals, f, slack, best, grid = discrete(k, k['lin'])
    tree_search(P, [v[k['xs'][i] % len(v)] for i, v in enumerate(vals)], vals, f, slack, best)
    return len(P.cons) > 0 and len(vals) > 1


def tree_search(P, x0, vals, f, slack, best):
    from metku.optimization.solvers import BnB, SLSQP
    bounds = [(v.lb, v.ub) for v in P.vars]
    boxes = []

    class Relaxation(SLSQP):
        def solve(self, problem, *a, **kw):
            boxes.append(tuple((float(v.lb), float(v.ub)) for v in problem.all_vars))
            return super().solve(problem, *a, **kw)

    s = BnB(P, Relaxation())
    r = s.solve(P, x0=x0, maxiter=1000)
    judge('branch and bound', P, vals, f, slack, best, *r, exact=1e-2)
    need([(v.lb, v.ub) for v in P.vars] == bounds and not P.locked_vars, 'bounds or locks are not restored')
    need(all(c.problem is P for c in P.cons), 'constraints belong to another problem')
    need(len(set(boxes)) == len(boxes), lambda: f'relaxation solved again in the same box: {[b for b in boxes if boxes.count(b) > 1][:2]}')
    for b in boxes:
        need(all(p >= l - 1e-9 and q <= u + 1e-9 for (p, q), (l, u) in zip(b, bounds)), 'box outside the bounds of the variables')
    return boxes


@CHECK.clause('bnb-deep', st.fixed_dictionaries({
    'ub': st.lists(st.integers(2, 7), min_size=2, max_size=3),
    'rows': st.lists(st.tuples(st.lists(st.integers(1, 9), min_size=3, max_size=3), st.integers(5, 95)), min_size=1, max_size=2),
    'c': st.lists(st.floats(0.8, 1.3), min_size=3, max_size=3)}), quick=150, thorough=6000,
    rule='covering problems whose variables are branched several times, against enumeration')
def bnb_deep(k):
    import numpy as np
    from metku.optimization import structopt as so
    from metku.optimization.objective import ObjectiveFunction
    n = len(k['ub'])
    vals = [list(range(u + 1)) for u in k['ub']]
    rows = [(np.array(a[:n], dtype=float), max(1, int(sum(x * u for x, u in zip(a, k['ub'])) * q / 100)) - 0.5) for a, q in k['rows']]
    c = rows[0][0] * np.array(k['c'][:n])
    f = lambda x: float(c @ np.asarray(x, dtype=float))
    slack = lambda x: min(a @ np.array(x) - b for a, b in rows)
    best = min(f(x) for x in itertools.product(*vals) if slack(x) > 0)
    P = so.OptimizationProblem('p')
    P.prob_type = 'discrete'
    for i in range(n):
        P.add(so.DiscreteVariable(f'x{i}', values=vals[i], value=vals[i][-1]))
    P.add(ObjectiveFunction('f', f))
    for a, b in rows:
        P.add(so.LinearConstraint(a, b, '>', 'c'))
    boxes = tree_search(P, [v[-1] for v in vals], vals, f, slack, best)
    return len(boxes) > 4


@CHECK.clause('milp', st.fixed_dictionaries({
    'n': st.integers(1, 3), 'lb': st.lists(st.integers(-4, 2), min_size=3, max_size=3),
    'w': st.lists(st.integers(1, 5), min_size=3, max_size=3), 'bin': st.lists(st.booleans(), min_size=3, max_size=3),
    'cons': DISC['cons'], 'xs': DISC['xs'], 'c': DISC['c'], 'sg': DISC['sg'], 'max': st.booleans()}),
    quick=300, thorough=6000, rule='mixed-integer linear programs against enumeration')
def milp(k):
    import numpy as np
    from metku.optimization import structopt as so
    from metku.optimization.objective import LinearObjective
    from metku.optimization.solvers.milp import MILP
    n = k['n']
    lb = [0 if k['bin'][i] else k['lb'][i] for i in range(n)]
    ub = [1 if k['bin'][i] else k['lb'][i] + k['w'][i] for i in range(n)]
    xs = np.array([lb[i] + k['xs'][i] % (ub[i] - lb[i] + 1) for i in range(n)])
    P = so.OptimizationProblem('p')
    for i in range(n):
        P.add(so.BinaryVariable(f'x{i}', value=0) if k['bin'][i] else
              so.IntegerVariable(f'x{i}', lb[i], ub[i], value=lb[i]))
    c = np.array(k['c'][:n]) * np.array(k['sg'][:n])
    P.add(LinearObjective('f', c, 'MAX' if k['max'] else 'MIN'))
    rows = []
    for q in k['cons']:
        a = np.array(q['a'][:n])
        b = float(a @ xs + (0.02 + q['s']) * (1 if q['t'] == '<' else -1))
        rows.append((a, b, q['t']))
        P.add(so.LinearConstraint(a, b, q['t'], 'c'))
    slack = lambda x: min([b - a @ np.array(x) if t == '<' else a @ np.array(x) - b for a, b, t in rows], default=1)
    s = -1 if k['max'] else 1
    grid = list(itertools.product(*[range(a, b + 1) for a, b in zip(lb, ub)]))
    if any(abs(slack(x)) < 1e-3 for x in grid):
        raise Skip('limit of feasibility')
    best = min(s * float(c @ np.array(x)) for x in grid if slack(x) > 0)
    m = MILP()
    try:
        m.solve(P)
    except Exception as e:
        if 'Gurobi' in type(e).__name__:
            raise Skip('no solver')
        raise
    need(m.feasible, 'not solved')
    x = np.array(m.X)
    need(np.all(np.abs(x - np.round(x)) < 1e-5), f'{x} is not integer')
    need(np.all(x >= np.array(lb) - 1e-6) and np.all(x <= np.array(ub) + 1e-6), 'out of bounds')
    need(slack(x) > -1e-5, 'infeasible')
    check_close(s * float(c @ x), best, 'objective', 1e-6, 1e-6)
    return n > 1 and len(rows) > 0


@CHECK.clause('ga', st.fixed_dictionaries({**DISC, 'seed': st.integers(0, 10 ** 6), 'iters': st.integers(1, 8)}),
              quick=200, thorough=4000, rule='genetic algorithm on index variables: the reported value is that of '
              'the reported design')
def ga(k):
    import numpy as np
    from metku.optimization import structopt as so
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.solvers import GA
    vals = k['vals']
    n = len(vals)
    if n < 2:
        raise Skip('crossover needs two variables')

    class Obj:
        pass
    o = Obj()
    P = so.OptimizationProblem('p')
    for i, v in enumerate(vals):
        P.add(so.IndexVariable(f'x{i}', v, target={'property': f'a{i}', 'objects': [o]}, value=0))
        setattr(o, f'a{i}', v[0])
    q = k['c']
    P.add(ObjectiveFunction('f', lambda x: sum(q[i] * (getattr(o, f'a{i}') - 1) ** 2 for i in range(n))))
    for c in k['cons']:
        P.add(so.NonLinearConstraint(lambda x, c=c: sum(c['a'][i] * getattr(o, f'a{i}') for i in range(n)) - c['s'],
                                     '<', 'c'))

    def value(x):
        y = [vals[i][int(a)] for i, a in enumerate(x)]
        g = [min(100, max(0, sum(c['a'][i] * y[i] for i in range(n)) - c['s'])) for c in k['cons']]
        return sum(q[i] * (y[i] - 1) ** 2 for i in range(n)) + 2e6 * sum(a * a for a in g)
    np.random.seed(k['seed'])
    random.seed(k['seed'])
    s = GA(pop_size=12)
    f, x = s.solve(P, maxiter=k['iters'])
    need(len(x) == n and all(0 <= a <= len(v) - 1 and a == int(a) for a, v in zip(x, vals)), f'{x} is not allowed')
    check_close(f, value(x), 'reported value', 1e-6, 1e-9)
    best = min(value(y) for y in itertools.product(*[range(len(v)) for v in vals]))
    need(f >= best - 1e-6 * (1 + abs(best)), 'better than the optimum')
    return len(k['cons']) > 0
