"""O01: optimization variables, constraints, objectives and problems."""
import itertools
import math

from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('O01', 'several variables of which some are locked, scaled or discrete',
              ['variables have initial values and evaluation points are within the bounds',
               'a value given when locking is followed by a substitution of the free variables'])
FR = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1))
VAL = st.floats(-50, 50).map(lambda v: round(v, 3))


# ------------------------------------------------------------- variables
@CHECK.clause('variable', st.fixed_dictionaries({
    'kind': st.sampled_from(['cont', 'cont', 'cs', 'disc', 'int', 'index', 'binary', 'exist']),
    'form': st.sampled_from(['single', 'list', 'kw', 'kws']),
    'fun': st.sampled_from([None, None, 'some', 'all']),
    'nobj': st.integers(1, 3),
    'vals': st.lists(VAL, min_size=2, max_size=6, unique=True),
    'ops': st.lists(st.one_of(
        st.tuples(st.just('sub'), FR),
        st.tuples(st.just('lock'), st.one_of(st.none(), FR)),
        st.tuples(st.just('unlock'), st.just(0)),
        st.tuples(st.just('scale'), st.sampled_from([0.1, 2.0, 5.0, 1000.0]))), min_size=1, max_size=8)}),
    quick=1500, thorough=40000, rule='histories of substitute, lock, unlock and scale; non-trivial '
    'with a substitution into a locked or scaled variable')
def variable(k):
    from metku.optimization import variables as V

    class Obj:
        pass
    kind, form = k['kind'], k['form']
    if kind in ('cs', 'binary', 'exist') and form in ('kw', 'kws'):
        form = 'single'
    if kind == 'cs' and form == 'list':
        form = 'single'
    objs = [Obj() for _ in range(k['nobj'])]
    for o in objs:
        o.cross_section = Obj()
    many = form in ('list', 'kws')
    props = ['p', 'q'] if many else ['p']
    if kind in ('binary', 'exist'):
        props = ['profile' if kind == 'binary' else 'member']
        many = False
        form = 'single'
    kw = {}
    if form == 'single':
        kw['target'] = {'property': props[0], 'objects': objs}
    elif form == 'list':
        kw['target'] = {'property': props, 'objects': objs}
    elif form == 'kw':
        if len(objs) == 1:
            kw.update(target_property='p', target_object=objs[0])
        else:
            kw.update(target_property='p', target_objects=objs)
    else:
        kw.update(target_properties=props, target_objects=objs)
    funs = None
    if k['fun'] and kind in ('cont', 'disc', 'int') and form in ('list', 'kws'):
        funs = {'p': lambda v: 3 * v + 1}
        if k['fun'] == 'all':
            funs['q'] = lambda v: v * v
        kw['target_fun'] = funs
    vals = sorted(k['vals'])
    sec = object()
    if kind == 'cont':
        v = V.Variable('v', vals[0], vals[-1], **kw)
    elif kind == 'cs':
        v = V.CrossSectionVariable('v', vals[0], vals[-1], value=vals[0], **kw)
        need(v.target is kw['target'] and v.value == vals[0] and v.profiles is None,
             'cross-section variable does not store its data')
    elif kind == 'disc':
        v = V.DiscreteVariable('v', vals, **kw)
    elif kind == 'int':
        v = V.IntegerVariable('v', 0, 7, **kw)
    elif kind == 'index':
        v = V.IndexVariable('v', list(k['vals']), **kw)
    else:
        v = V.BinaryVariable('v', section=sec, **kw) if kind == 'binary' else V.BinaryVariable('v', **kw)
    lb, ub = {'int': (0, 7), 'index': (0, len(vals) - 1), 'binary': (0, 1), 'exist': (0, 1)}.get(
        kind, (vals[0], vals[-1]))
    need((v.lb, v.ub) == (lb, ub), f'bounds {v.lb}, {v.ub} instead of {lb}, {ub}')
    value, locked, scale, nt, done = v.value, False, 1.0, False, False
    expected = None

    def point(f):
        if kind in ('int', 'index', 'binary', 'exist'):
            return int(round(lb + f * (ub - lb)))
        if kind == 'disc':
            return vals[int(round(f * (len(vals) - 1)))] / scale
        return (lb + f * (ub - lb)) / scale

    def model(x):
        if kind == 'index':
            return {p: k['vals'][x] for p in props}
        if kind == 'binary':
            return {'profile': sec} if x == 1 else None
        if kind == 'exist':
            return {'active': x == 1}
        return {p: (funs[p](x * scale) if funs and p in funs else x * scale) for p in props}
    for op, a in k['ops']:
        if op == 'scale':
            if kind in ('int', 'index', 'binary', 'exist'):
                continue
            v.scale(a)
            scale *= a
            check_close(v.lb * scale, lb, 'lower bound after scaling', 1e-9, 1e-12)
            check_close(v.ub * scale, ub, 'upper bound after scaling', 1e-9, 1e-12)
        elif op == 'unlock':
            v.unlock()
            locked = False
        else:
            x = None if a is None else point(a)
            if op == 'lock':
                v.lock(x) if x is not None else v.lock()
            else:
                v.substitute(x)
            if x is not None and not locked:
                value = x
                m = model(x)
                if m is not None:
                    expected = m
                nt = nt or scale != 1
                done = True
            elif x is not None:
                nt = True
            if op == 'lock':
                locked = True
        need(v.locked == locked, 'locked')
        need(v.value == value, f'value {v.value} instead of {value}')
        if expected is None:
            continue
        for o in objs:
            t = o.cross_section if kind == 'cs' else o
            for p, w in expected.items():
                need(hasattr(t, p), f'{p} not substituted')
                g = getattr(t, p)
                if w is sec:
                    need(g is sec, 'section not substituted')
                else:
                    check_close(g, w, f'{kind} {p} after {op}', 1e-9, 1e-12)
    return nt and done


@CHECK.clause('discrete', st.fixed_dictionaries({
    'vals': st.lists(VAL, min_size=2, max_size=8, unique=True), 'x': st.floats(-60, 60),
    'pick': st.integers(0, 7), 'off': st.sampled_from([0, 0.0, 1e-6, -1e-6, 3e-4, -7e-4, 0.002, -0.002, 0.4]),
    'ilb': st.integers(-5, 5), 'n': st.integers(0, 9)}),
    quick=1500, thorough=40000, rule='allowed values and violations; non-trivial strictly between values')
def discrete(k):
    from metku.optimization import variables as V
    vals = k['vals']
    v = V.DiscreteVariable('v', vals)
    for x in (k['x'], vals[k['pick'] % len(vals)] + k['off']):
        d = min(abs(x - w) for w in vals)
        if v.lb <= x <= v.ub:
            if d < 5e-5:
                need(v.is_allowed_value(x), f'{x} allowed')
            if d > 1.1e-3:
                need(not v.is_allowed_value(x), f'{x} not allowed')
            need(bool(v.is_allowed_value(x)) == (v.discrete_violation(x) == 0) or abs(d - 1e-3) < 1e-6,
                 f'{x}: allowed and violated')
        elif d > 1e-6:
            need(not v.is_allowed_value(x), f'{x} out of bounds')
        if d < 9e-4:
            need(v.discrete_violation(x) == 0, 'violation within the tolerance')
        elif d > 1.1e-3:
            check_close(v.discrete_violation(x), d, 'discrete violation', 1e-9)
        lo, hi = [w for w in vals if w < x], [w for w in vals if w > x]
        if lo:
            need(v.smaller_discrete_value(x) == max(lo), 'smaller value')
        if hi:
            need(v.larger_discrete_value(x) == min(hi), 'larger value')
    i = V.IntegerVariable('i', k['ilb'], k['ilb'] + k['n'])
    for x in (k['x'] / 5, k['ilb'] + k['pick'] + k['off']):
        d = abs(x - round(x))
        inside = i.lb <= x <= i.ub
        if not inside or d > 2e-4:
            need(not i.is_allowed_value(x), f'integer {x} not allowed')
        elif d < 5e-5:
            need(i.is_allowed_value(x), f'integer {x} allowed')
        if d > 2e-4:
            check_close(i.discrete_violation(x), d, 'integer violation', 1e-9)
        elif d < 5e-5:
            need(i.discrete_violation(x) == 0, 'integer violation')
    return True


# --------------------------------------------------- problems and structures
VARS = st.lists(st.fixed_dictionaries({
    'kind': st.sampled_from(['cont', 'cont', 'disc', 'index', 'int']),
    'lo': st.floats(-4, 4), 'w': st.floats(0.5, 6), 'n': st.integers(2, 5),
    'x0': FR}), min_size=1, max_size=4)
COEF = st.lists(st.floats(-3, 3), min_size=4, max_size=4)
CONS = st.lists(st.fixed_dictionaries({
    'kind': st.sampled_from(['lin', 'nonlin', 'fem', 'fem']), 'type': st.sampled_from('<>='),
    'a': COEF, 'q': COEF, 'b': st.floats(-5, 5), 'load': st.sampled_from([0, 1, 'ALL']),
    'grad': st.booleans(), 'bv': st.one_of(st.none(), st.none(), st.none(), st.integers(0, 3))}), min_size=0, max_size=4)
CONS1 = CONS.filter(lambda c: any(x['kind'] == 'fem' for x in c))
POINT = st.lists(FR, min_size=4, max_size=4)
OPS = st.lists(st.one_of(
    st.tuples(st.just('con'), st.integers(0, 3), POINT),
    st.tuples(st.just('obj'), st.just(0), POINT),
    st.tuples(st.just('again'), st.integers(0, 3), st.just([])),
    st.tuples(st.just('lock'), st.integers(0, 3), POINT),
    st.tuples(st.just('lockhere'), st.integers(0, 3), st.just([])),
    st.tuples(st.just('unlock'), st.integers(0, 3), st.just([])),
    st.tuples(st.just('cons'), st.just(0), POINT),
    st.tuples(st.just('lin'), st.integers(0, 1), POINT)), min_size=3, max_size=10)


class Struct:
    """Structure whose 'analysis' is a known function of its attributes."""

    def __init__(self, n):
        self.n, self.res, self.count = n, {}, 0

    def response(self, load):
        return sum((i + 1) * getattr(self, f'a{i}') ** 2 * (1 + 0.5 * load) for i in range(self.n))

    def calculate(self, load_id='ALL', support_method='REM', design=True, **kw):
        self.count += 1
        for i in (0, 1):
            if load_id in (i, 'ALL'):
                self.res[i] = self.response(i)
                self.res[f'{i}ALL'] = self.res[i]


class Model:
    """The same problem, evaluated from the full vector of variables."""

    def __init__(self, k):
        self.k, self.n = k, len(k['vars'])
        self.vals = []
        for v in k['vars']:
            if v['kind'] in ('disc', 'index'):
                self.vals.append([v['lo'] + v['w'] * j * j / v['n'] for j in range(v['n'])])
            elif v['kind'] == 'int':
                self.vals.append([float(round(v['lo'])) + j for j in range(v['n'])])
            else:
                self.vals.append(None)
        self.x = [self.point(i, v['x0']) for i, v in enumerate(k['vars'])]
        self.locked = [False] * self.n

    def point(self, i, f):
        v = self.k['vars'][i]
        if v['kind'] == 'cont':
            # designs closer than the tolerance of the library are the same design
            return v['lo'] + round(f, 4) * v['w']
        j = int(round(f * (v['n'] - 1)))
        return j if v['kind'] == 'index' else self.vals[i][j]

    def attr(self, i, x):
        return self.vals[i][int(x)] if self.k['vars'][i]['kind'] == 'index' else x

    def response(self, x, load):
        return sum((i + 1) * self.attr(i, x[i]) ** 2 * (1 + 0.5 * load) for i in range(self.n))

    def bvar(self, c):
        """right hand side of a linear constraint is a variable"""
        v = c.get('bv')
        if c['kind'] != 'lin' or v is None or v >= self.n or self.k['vars'][v]['kind'] == 'index':
            return None
        return v

    def con(self, c, x):
        v = self.bvar(c)
        g = sum(c['a'][i] * x[i] for i in range(self.n)) - (c['b'] if v is None else x[v])
        if c['kind'] != 'lin':
            g += sum(c['q'][i] * x[i] ** 2 for i in range(self.n))
        if c['kind'] == 'fem':
            g += self.response(x, 1 if c['load'] == 1 else 0)
        return g

    def dcon(self, c, x, i):
        g = c['a'][i] - (self.bvar(c) == i)
        if c['kind'] != 'lin':
            g += 2 * c['q'][i] * x[i]
        if c['kind'] == 'fem':
            g += 2 * (i + 1) * self.attr(i, x[i]) * (1.5 if c['load'] == 1 else 1)
        return g

    def obj(self, x):
        s = -1 if self.k['max'] else 1
        f = sum((i + 2) * x[i] + x[i] ** 2 for i in range(self.n))
        return s * (f + (self.response(x, 0) if self.k['objfem'] else 0))

    def dobj(self, x, i):
        s = -1 if self.k['max'] else 1
        g = i + 2 + 2 * x[i]
        if self.k['objfem']:
            g += 2 * (i + 1) * self.attr(i, x[i])
        return s * g

    def free(self):
        return [i for i in range(self.n) if not self.locked[i]]


def build(k, m, grads=True):
    from metku.optimization import structopt as so
    from metku.optimization import variables as V
    from metku.optimization.objective import ObjectiveFunction
    s = Struct(m.n)
    vs = []
    for i, v in enumerate(k['vars']):
        t = {'property': f'a{i}', 'objects': [s]}
        if v['kind'] == 'cont':
            w = V.Variable(f'x{i}', v['lo'], v['lo'] + v['w'], target=t, value=m.x[i])
        elif v['kind'] == 'disc':
            w = V.DiscreteVariable(f'x{i}', m.vals[i], target=t, value=m.x[i])
        elif v['kind'] == 'index':
            w = V.IndexVariable(f'x{i}', m.vals[i], target=t, value=m.x[i])
        else:
            w = V.IntegerVariable(f'x{i}', m.vals[i][0], m.vals[i][-1], target=t, value=m.x[i])
        vs.append(w)
        setattr(s, f'a{i}', m.attr(i, m.x[i]))
    cons = []
    for j, c in enumerate(k['cons']):
        if c['kind'] == 'lin':
            b = m.bvar(c)
            cons.append(so.LinearConstraint(c['a'][:m.n], c['b'] if b is None else vs[b], c['type'], f'c{j}'))
        else:
            def fun(x, c=c):
                g = sum(c['a'][i] * x[i] + c['q'][i] * x[i] ** 2 for i in range(m.n)) - c['b']
                if c['kind'] == 'fem':
                    g += s.res[f"{0}ALL" if c['load'] == 'ALL' else c['load']]
                return g
            kw = {'fea_required': True, 'load_ids': [c['load']]} if c['kind'] == 'fem' else {}
            cons.append(so.NonLinearConstraint(fun, c['type'], f'c{j}', **kw))

    def f(x):
        v = sum((i + 2) * x[i] + x[i] ** 2 for i in range(m.n))
        return v + (s.res['0ALL'] if k['objfem'] else 0)
    o = ObjectiveFunction('f', f, 'MAX' if k['max'] else 'MIN', fea_required=k['objfem'])
    how = k['how']
    if how == 0:
        P = so.OptimizationProblem('p', variables=vs, constraints=cons, objective=o, structure=s)
    else:
        P = so.OptimizationProblem('p')
        P.add_structure(s)
        if how == 1:
            for w in vs + cons + [o]:
                P.add(w)
        else:
            P.add_variables(vs[:1])
            for w in vs[1:]:
                P.add_variable(w)
            P.add_constraints(cons[:2])
            for c in cons[2:]:
                P.add_constraint(c)
            P.add(o)
    return P, s


@CHECK.clause('problem', st.fixed_dictionaries({
    'vars': VARS, 'cons': st.one_of(CONS1, CONS1, CONS1, CONS), 'ops': OPS, 'max': st.booleans(), 'objfem': st.booleans(),
    'how': st.integers(0, 2), 'grad': st.booleans()}),
    quick=2500, thorough=60000, rule='histories of evaluations, locking and linearization; non-trivial '
    'when a constraint with structural analysis is evaluated with locked variables or after linearization')
def problem(k):
    import numpy as np
    m = Model(k)
    P, s = build(k, m)
    if k['grad']:
        P.grad = lambda x: np.array([m.dobj(m.x, i) for i in m.free()])
    need(len(P.vars) == m.n and len(P.cons) == len(k['cons']), 'variables or constraints missing')
    nt = False
    lin = False

    def full(p):
        for i in m.free():
            m.x[i] = m.point(i, p[i])
        return [m.x[i] for i in m.free()]

    def state(what):
        for i, v in enumerate(P.all_vars):
            check_close(v.value, m.x[i], f'{what}: value of x{i}', 1e-12, 1e-12)
            check_close(getattr(s, f'a{i}'), m.attr(i, m.x[i]), f'{what}: structure of x{i}', 1e-12, 1e-12)

    def con(j, x, what):
        g = P.cons[j](x)
        c = k['cons'][j]
        check_close(g, m.con(c, m.x), f'{what}: constraint {j} ({c["kind"]})', 1e-9, 1e-8)
        if g < -0.26 and c['type'] == '<' or g > 0.26 and c['type'] == '>':
            need(P.cons[j].potential is False, 'potential')
        if abs(g) < 0.24 or c['type'] == '=':
            need(P.cons[j].potential, 'not potential')
    for op, i, p in k['ops']:
        free = m.free()
        if op in ('lock', 'lockhere', 'unlock'):
            i %= m.n
            v = P.all_vars[i]
            if op == 'unlock':
                v.unlock()
                m.locked[i] = False
            elif op == 'lockhere':
                v.lock()
                m.locked[i] = True
            else:
                if not m.locked[i]:
                    m.x[i] = m.point(i, p[i])
                v.lock(m.x[i])
                m.locked[i] = True
                P.substitute_variables([m.x[j] for j in m.free()])
            need([v is P.all_vars[j] for v, j in zip(P.vars, m.free())].count(False) == 0 and
                 len(P.vars) == len(m.free()), 'free variables')
            need(P.fixed_vals == [m.x[j] if m.locked[j] else None for j in range(m.n)], 'fixed values')
            continue
        if not free or op in ('con', 'again', 'cons') and not k['cons']:
            continue
        x = [m.x[j] for j in free] if op == 'again' else full(p)
        if op in ('con', 'again'):
            j = i % len(k['cons'])
            con(j, x, op)
            if k['cons'][j]['kind'] == 'fem' and (any(m.locked) or lin):
                nt = True
        elif op == 'obj':
            check_close(P.obj(x), m.obj(m.x), 'objective', 1e-9, 1e-8)
            check_close(P.obj.neg_call(x), -m.obj(m.x), 'negative objective', 1e-9, 1e-8)
        elif op == 'cons':
            g = P.eval_cons(x)
            w = np.array([m.con(c, m.x) for c in k['cons']])
            check_vec(g, w, 'constraints', 1e-9, 1e-8)
            eq = [a for a, c in zip(w, k['cons']) if c['type'] == '=']
            iq = [(a if c['type'] == '>' else -a) for a, c in zip(w, k['cons']) if c['type'] != '=']
            check_vec(P.eval_eq_con(x), eq, 'equality constraints', 1e-9, 1e-8)
            check_vec(P.eval_ineq_con(x), iq, 'inequality constraints', 1e-9, 1e-8)
            viol = [max(0, a if c['type'] == '<' else -a if c['type'] == '>' else abs(a))
                    for a, c in zip(w, k['cons'])]
            P.substitute_variables(x)
            if max(viol, default=0) < 0.9e-4:
                need(P.feasible(x) and P.feasible(), 'feasible')
            elif max(viol) > 1.1e-4:
                need(not P.feasible(x) and not P.feasible(), 'infeasible')
            need(P.nnonlincons() == sum(c['kind'] != 'lin' for c in k['cons']), 'nonlinear constraints')
            need(P.nlineqcons() == sum(c['kind'] != 'lin' and c['type'] == '=' for c in k['cons']) and
                 P.nlincons() == sum(c['kind'] != 'lin' and c['type'] != '=' for c in k['cons']),
                 'numbers of nonlinear constraints')
            check_vec(P.eval_nonlin_cons(x), [a for a, c in zip(w, k['cons']) if c['kind'] != 'lin'],
                      'nonlinear constraints', 1e-9, 1e-8)
        else:
            x0 = np.array(x, dtype=float)
            A, B, df, fx = P.linearize(x0, only_potential=bool(i))
            check_vec(x0, x, 'point of linearization', 1e-12)
            act = [c for c in k['cons'] if not i or c['type'] == '='
                   or (m.con(c, m.x) if c['type'] == '<' else -m.con(c, m.x)) >= -0.25]
            edge = any(abs(abs(m.con(c, m.x)) - 0.25) < 1e-6 for c in k['cons'])
            if edge:
                continue
            need(np.shape(A) == (len(act), len(free)), 'size of the Jacobian')
            check_close(fx, m.obj(m.x), 'linearize: objective', 1e-9, 1e-8)
            for b, j in enumerate(free):
                xh = list(m.x)
                step = k['vars'][j]['kind'] == 'index'
                if step:
                    h = 1 if m.x[j] + 1 < k['vars'][j]['n'] else -1
                    xh[j] += h
                w = (m.obj(xh) - m.obj(m.x)) / h if step and P.grad is None else m.dobj(m.x, j)
                check_close(df[b], w, f'linearize: objective gradient {j}', 1e-4, 2e-3)
                for a, c in enumerate(act):
                    w = (m.con(c, xh) - m.con(c, m.x)) / h if step else m.dcon(c, m.x, j)
                    check_close(A[a, b], w, f'linearize: gradient of {c["kind"]} constraint, x{j}', 1e-4, 2e-3)
            g = np.array([m.con(c, m.x) for c in act])
            if len(act):
                check_vec(np.asarray(A) @ np.array(x, dtype=float) - B, g, 'linearize: A x - B', 1e-6, 1e-6)
            lin = True
        state(op)
    return nt


# ------------------------------------------------------- penalty functions
@CHECK.clause('penalties', st.fixed_dictionaries({
    'vars': VARS, 'cons': CONS, 'max': st.booleans(), 'objfem': st.just(False), 'how': st.integers(0, 2),
    'x': POINT, 'R': st.floats(0.1, 50), 'p': st.sampled_from([1, 2, 3]),
    'mult': COEF, 'req': st.floats(0.1, 5), 'bar': st.sampled_from(['log', 'inverse']),
    'lm': COEF, 'out': COEF, 'lock': st.lists(st.sampled_from([False, False, True]), min_size=4, max_size=4)}),
    quick=1500, thorough=40000, rule='exact and exterior penalties, barrier and augmented Lagrangian; '
    'non-trivial with a violated constraint')
def penalties(k):
    m = Model(k)
    P, s = build(k, m)
    lock = [i for i in range(m.n) if k['lock'][i]]
    if len(lock) == m.n:
        lock = []
    m.x = [m.x[i] if i in lock else m.point(i, k['x'][i]) for i in range(m.n)]
    R, p = k['R'], k['p']
    xf = [m.x[i] for i in range(m.n) if i not in lock]
    for i in lock:
        P.all_vars[i].lock()
    x = m.x
    g = [m.con(c, x) for c in k['cons']]
    t = [c['type'] for c in k['cons']]
    viol = [abs(a) if b == '=' else max(0, a if b == '<' else -a) for a, b in zip(g, t)]
    f = m.obj(x)
    check_close(P.exact_penalty_fun(R)(xf), R * sum(viol), 'exact penalty', 1e-8, 1e-7)
    check_close(P.exterior_penalty_fun(R, p)(xf), f + R * sum(v ** p for v in viol),
                'exterior penalty', 1e-8, 1e-6)
    inside = all(b == '=' or (a < -1e-3 if b == '<' else a > 1e-3) for a, b in zip(g, t)) and \
        all(v.lb < a < v.ub for v, a in zip(P.vars, xf))
    if inside:
        w = f
        for a, b in zip(g, t):
            if b != '=':
                w += -math.log(abs(a)) / R if k['bar'] == 'log' else 1 / R / abs(a)
        for v, a in zip(P.vars, xf):
            w += 1 / R / (a - v.lb) + 1 / R / (v.ub - a)
        check_close(P.barrier_fun(R, k['bar'])(xf), w, 'barrier', 1e-7, 1e-6)
    for c, mu in zip(P.cons, k['mult']):
        c.mult = abs(mu) if c.type != '=' else mu
    for v, mu in zip(P.vars, k['lm']):
        v.lb_mult, v.ub_mult = abs(mu), abs(mu) / 2 + 0.3
    w = f
    rq = k['req']
    new = []
    for c, a, b in zip(P.cons, g, t):
        if b == '=':
            w += -c.mult * a + rq * a * a
            new.append(c.mult - 2 * rq * a)
        else:
            h = a if b == '<' else -a
            w += R * max(c.mult / (2 * R) + h, 0) ** 2
            new.append(max(c.mult + 2 * R * h, 0))
    bnd = []
    for v, a in zip(P.vars, xf):
        w += R * max(v.lb_mult / (2 * R) + v.lb - a, 0) ** 2 + R * max(v.ub_mult / (2 * R) + a - v.ub, 0) ** 2
        bnd.append((max(v.lb_mult + 2 * R * (v.lb - a), 0), max(v.ub_mult + 2 * R * (a - v.ub), 0)))
    check_close(P.augmented_lagrangian(R, rq)(xf), w, 'augmented Lagrangian', 1e-8, 1e-6)
    P.update_lag_mult(xf, R, rq)
    for c, a in zip(P.cons, new):
        check_close(c.mult, a, f'multiplier ({c.type})', 1e-8, 1e-6)
    for v, (a, b) in zip(P.vars, bnd):
        check_close(v.lb_mult, a, 'multiplier of the lower bound', 1e-8, 1e-6)
        check_close(v.ub_mult, b, 'multiplier of the upper bound', 1e-8, 1e-6)
    # points outside the bounds
    for v, mu in zip(P.vars, k['lm']):
        v.lb_mult, v.ub_mult = abs(mu), abs(mu) / 2 + 0.3
    cons = list(P.cons)
    P.cons.clear()
    z = [a + d for a, d in zip(xf, k['out'])]
    out = [(v.lb - a, a - v.ub) for v, a in zip(P.vars, z)]
    check_close(P.exact_penalty_fun(R)(z), R * sum(max(0, *o) for o in out), 'exact penalty of bounds', 1e-8, 1e-7)
    f = P.obj(z)
    check_close(P.exterior_penalty_fun(R, p)(z) - f, R * sum(max(0, *o) ** 2 for o in out), 'exterior penalty of bounds', 1e-8, 1e-6)
    check_close(P.augmented_lagrangian(R, rq)(z) - f, sum(R * max(v.lb_mult / (2 * R) + o[0], 0) ** 2
                + R * max(v.ub_mult / (2 * R) + o[1], 0) ** 2 for v, o in zip(P.vars, out)), 'augmented Lagrangian of bounds', 1e-8, 1e-6)
    old = [(v.lb_mult, v.ub_mult) for v in P.vars]
    P.update_lag_mult(z, R, rq)
    for v, o, q in zip(P.vars, out, old):
        check_close(v.lb_mult, max(q[0] + 2 * R * o[0], 0), 'multiplier of a violated lower bound', 1e-8, 1e-6)
        check_close(v.ub_mult, max(q[1] + 2 * R * o[1], 0), 'multiplier of a violated upper bound', 1e-8, 1e-6)
    P.cons.extend(cons)
    return max(viol, default=0) > 1e-3


# ----------------------------------------------------- approximations
PV = st.floats(0.3, 5)


@CHECK.clause('approximations', st.fixed_dictionaries({
    'n': st.integers(1, 4), 'x': st.lists(PV, min_size=4, max_size=4), 'fk': st.floats(-10, 10),
    'd': COEF, 'y': st.lists(PV, min_size=4, max_size=4),
    'wl': st.floats(0.5, 9), 'wu': st.floats(5.1, 20), 'lock': st.integers(0, 4),
    'cons': st.lists(st.tuples(st.sampled_from(['lin', 'non']), COEF, st.floats(-4, 4),
                               st.sampled_from('<>=')), max_size=3), 'bv': st.integers(0, 15)}),
    quick=1500, thorough=40000, rule='CONLIN and MMA approximations of functions and problems; '
    'non-trivial with gradients of both signs')
def approximations(k):
    import numpy as np
    from metku.optimization import opt_functions as of
    from metku.optimization import structopt as so
    from metku.optimization.solvers.mma import MMAProblem
    n = k['n']
    x, y, d = (np.array(k[q][:n]) for q in ('x', 'y', 'd'))
    L, U = x - k['wl'], x + k['wu']
    y = np.clip(y, L + 0.05 * k['wl'], U - 0.05 * k['wu'])
    y = np.maximum(y, 0.05)

    def conlin(f, d, z):
        return f + sum(di * (zi - xi) if di >= 0 else di * xi / zi * (zi - xi)
                       for di, zi, xi in zip(d, z, x))

    def mma(f, d, z):
        s = f
        for di, zi, xi, l, u in zip(d, z, x, L, U):
            s += di * (u - xi) ** 2 * (1 / (u - zi) - 1 / (u - xi)) if di >= 0 else \
                -di * (xi - l) ** 2 * (1 / (zi - l) - 1 / (xi - l))
        return s
    check_close(of.conlin_fun(x, k['fk'], d)(y), conlin(k['fk'], d, y), 'CONLIN', 1e-9, 1e-9)
    for F in (of.mma_fun(x, k['fk'], d, L, U), of.MMAFunction(x, k['fk'], d, L, U)):
        check_close(F(y), mma(k['fk'], d, y), 'MMA', 1e-8, 1e-8)
        check_close(F(x), k['fk'], 'MMA at the approximation point', 1e-9, 1e-9)
    g = of.MMAFunction(x, k['fk'], d, L, U).grad(x)
    check_vec(g, d, 'gradient of MMA', 1e-9, 1e-9)
    e = np.array([max(1e-6 * a, 1e-8) for a in y])
    Fy = of.MMAFunction(x, k['fk'], d, L, U)
    num = [(Fy(y + e * (np.arange(n) == i)) - Fy(y - e * (np.arange(n) == i))) / (2 * e[i]) for i in range(n)]
    check_vec(Fy.grad(y), num, 'gradient of MMA away', 1e-4, 1e-3)
    # gradient and linearization
    q = lambda z: float(sum(di * zi ** 2 for di, zi in zip(d, z)))
    check_vec(of.NumGrad(q, list(y)), 2 * d * y, 'numerical gradient', 1e-4, 1e-3)
    a, b, c = of.Linearize(q, y)
    check_vec(a, 2 * d * y, 'gradient of Linearize', 1e-4, 1e-3)
    check_close(b, q(y), 'value of Linearize', 1e-9)
    check_close(c, float(np.dot(a, y)), 'product of Linearize', 1e-9, 1e-9)
    # problems
    lock = k['lock'] if k['lock'] < n - 1 else None
    P = so.OptimizationProblem('p')
    for i in range(n):
        P.add(so.Variable(f'x{i}', 0.01, 30.0, value=float(x[i])))
    P.add(so.ObjectiveFunction('f', q))
    nl = lambda z, c, b: float(sum(c[i] * z[i] ** 2 for i in range(n)) - b)
    for kind, c, b, t in k['cons']:
        if kind == 'lin':
            P.add(so.LinearConstraint(c[:n], P.vars[k['bv']] if k['bv'] < n else b, t, 'c'))
        else:
            P.add(so.NonLinearConstraint(lambda z, c=c, b=b: nl(z, c, b), t, 'c'))
    if lock is not None:
        P.vars[lock].lock()
    free = [i for i in range(n) if i != lock]
    xf, yf = x[free], y[free]
    yy = x.copy()
    yy[free] = yf
    Lf, Uf = L[free], U[free]
    before = P.eval_cons(xf)
    for name, Q, fun in (('CONLIN', P.conlin(xf), conlin), ('MMA', P.mma(xf, Uf, Lf, 0.05), mma),
                         ('MMA sub-problem', MMAProblem(P, xf, Uf, Lf), mma)):
        need(len(Q.vars) == len(free) and len(Q.cons) == len(k['cons']), f'{name}: size')
        z = np.clip(yf, [v.lb for v in Q.vars], [v.ub for v in Q.vars])
        zz = x.copy()
        zz[free] = z
        dd = lambda c: np.array([2 * c[i] * x[i] if i in free else 0.0 for i in range(n)])
        tol = 1e-3 * (1 + max(abs(zz / x)) + max(np.abs((zz - x) ** 2 / np.minimum(U - zz, zz - L))))
        check_close(Q.obj(z), fun(q(x), dd(d), zz), f'{name}: objective', 1e-3, 20 * tol)
        for j, (kind, c, b, t) in enumerate(k['cons']):
            need(Q.cons[j].type == t and Q.cons[j].problem is Q, f'{name}: constraint')
            if kind == 'lin':
                check_close(Q.cons[j](z), float(np.dot(c[:n], zz) - (zz[k['bv']] if k['bv'] < n else b)), f'{name}: linear constraint', 1e-8, 1e-8)
            else:
                check_close(Q.cons[j](z), fun(nl(x, c, b), dd(c), zz), f'{name}: constraint', 1e-3, 20 * tol)
    need(all(c.problem is P for c in P.cons), 'constraints of the original problem are taken over')
    check_vec(P.eval_cons(xf), before, 'constraints of the original problem', 1e-12, 1e-12)
    return n > 1 and min(d) < 0 < max(d)


@CHECK.clause('neighbourhood', st.fixed_dictionaries({
    'vars': VARS, 'cons': st.just([]), 'max': st.booleans(), 'objfem': st.just(False), 'how': st.integers(0, 2),
    'x': POINT, 'k': st.integers(1, 4), 'seed': st.integers(0, 1000)}),
    quick=600, thorough=10000, rule='discrete neighbourhoods and random points; non-trivial with two discrete variables')
def neighbourhood(k):
    m = Model(k)
    P, s = build(k, m)
    x = [v['lo'] + k['x'][i] * v['w'] for i, v in enumerate(k['vars'])]
    got = list(P.discrete_neighborhood(x, k['k']))
    idx = [i for i, v in enumerate(k['vars']) if v['kind'] != 'cont']
    lists = []
    for i in idx:
        vals = list(range(k['vars'][i]['n'])) if k['vars'][i]['kind'] == 'index' else m.vals[i]
        lists.append(sorted(abs(a - x[i]) for a in vals)[:k['k']])
    size = math.prod(len(a) for a in lists)
    need(len(got) == size and len(set(got)) == size, f'{len(got)} neighbours instead of {size}')
    for pos, i in enumerate(idx):
        near = sorted({abs(q[pos] - x[i]) for q in got})
        need(max(near) <= max(lists[pos]) + 1e-9, 'a closer value is left out')
        for q in got:
            v = P.all_vars[i]
            need(v.is_allowed_value(q[pos]) if k['vars'][i]['kind'] != 'disc'
                 else min(abs(q[pos] - a) for a in m.vals[i]) < 1e-9, 'not an allowed value')
    for v, r in zip(P.vars, P.random_values()):
        need(v.lb - 1e-9 <= r <= v.ub + 1e-9, 'random value out of bounds')
        if hasattr(v, 'discrete_violation'):
            need(v.discrete_violation(r) == 0, 'random value is not allowed')
    check_vec(P.xlb(), [v.lb for v in P.vars], 'lower bounds')
    check_vec(P.xub(), [v.ub for v in P.vars], 'upper bounds')
    return len(idx) > 1


@CHECK.clause('clamp', st.fixed_dictionaries({
    'vars': st.lists(st.tuples(st.one_of(st.none(), st.integers(-50, 50)), st.one_of(st.none(), st.integers(0, 60))), min_size=1, max_size=5),
    'xs': st.lists(st.lists(st.integers(-400, 400), min_size=5, max_size=5), min_size=1, max_size=4)}),
    quick=600, thorough=20000, rule='values substituted beyond bounds given on both sides, one side or none; non-trivial beyond a one-sided bound')
def clamp(k):
    from metku.optimization import structopt as so
    from metku.optimization.constants import XLB, XUB

    class Obj:
        p = None
    P = so.OptimizationProblem('p', structure=Obj())
    objs, lim, nt = [], [], False
    for i, (lo, w) in enumerate(k['vars']):
        kw, o = {}, Obj()
        lo_, hi_ = XLB, XUB
        if lo is not None:
            kw['lb'] = lo_ = lo
        if w is not None:
            kw['ub'] = hi_ = (lo or 0) + w
        P.add(so.Variable(f'x{i}', target={'property': 'p', 'objects': [o]}, **kw))
        objs.append(o)
        lim.append((lo_, hi_))
        nt |= (lo is None) != (w is None)
    for x in k['xs']:
        x = [v / 4 for v in x[:len(objs)]]
        P.substitute_variables(x)
        for v, o, a, (lo, hi) in zip(P.vars, objs, x, lim):
            want = min(max(a, lo), hi)
            check_close(v.value, want, 'value of a variable', 1e-12, 1e-12)
            check_close(o.p, want, 'value in the target', 1e-12, 1e-12)
    return nt


@CHECK.clause('index2binary', st.fixed_dictionaries({
    'n': st.integers(1, 3), 'nsec': st.lists(st.integers(1, 4), min_size=3, max_size=3),
    'nmem': st.integers(1, 2), 'sel': st.lists(st.integers(0, 3), min_size=3, max_size=3),
    'new': st.lists(st.integers(0, 3), min_size=3, max_size=3), 'cont': st.booleans(),
    'props': st.sampled_from([['A'], ['A', 'Iy'], ['h', 'A', 'Iy']]), 'wrong': st.booleans()}),
    quick=400, thorough=5000, rule='index variables replaced by binary and property variables; '
    'non-trivial with several sections')
def index2binary(k):
    import numpy as np
    from metku.optimization import opt_functions as of
    from metku.optimization import structopt as so

    class Sec:
        def __init__(self, i, j):
            self.A, self.Iy, self.h = 100.123 + 10 * i + 7.5 * j, 1e4 + 333.3 * j * j + i, 20.0 + j

    class Mem:
        pass
    P = so.OptimizationProblem('p')
    secs, mems = [], []
    for i in range(k['n']):
        secs.append([Sec(i, j) for j in range(k['nsec'][i] + 1)])
        ms = [Mem() for _ in range(k['nmem'])]
        sel = k['sel'][i] % len(secs[i])
        for mm in ms:
            mm.cross_section = secs[i][sel]
        mems.append(ms)
        P.add(so.IndexVariable(f'p{i}', secs[i], target={'property': 'cross_section', 'objects': ms}, value=sel))
    Q, pack = of.index2binary(P, k['props'], 'continuous' if k['cont'] else 'discrete')
    nv = sum(len(s) + len(k['props']) for s in secs)
    need(len(Q.vars) == nv, 'number of variables')
    need(len(Q.cons) == k['n'] * (len(k['props']) + 1), 'number of constraints')

    def vec(sel, shift=None):
        x = np.zeros(nv)
        for i, pk in enumerate(pack):
            for v, p in zip(pk['props'], k['props']):
                x[Q.vars.index(v)] = round(getattr(secs[i][sel[i]], p), 3)
            for j, v in enumerate(pk['binary']):
                x[Q.vars.index(v)] = float(j == (sel[i] if shift is None else shift[i]))
        return x
    sel = [k['sel'][i] % len(secs[i]) for i in range(k['n'])]
    check_vec([v.value for v in Q.vars], vec(sel), 'initial values', 1e-9)
    new = [k['new'][i] % len(secs[i]) for i in range(k['n'])]
    check_vec(Q.eval_cons(vec(new)), np.zeros(len(Q.cons)), 'constraints of a consistent selection', 0, 1e-6)
    for i in range(k['n']):
        for mm in mems[i]:
            for p in k['props']:
                if k['cont']:
                    check_close(getattr(mm.cross_section, p), getattr(secs[i][new[i]], p), f'{p} of the members', 1e-3)
    if new != sel:
        need(max(abs(Q.eval_cons(vec(new, sel)))) > 1e-3, 'inconsistent selection satisfies the constraints')
    x = vec(new)
    for v in pack[0]['binary']:
        x[Q.vars.index(v)] = 0
    need(max(abs(Q.eval_cons(x))) > 0.5, 'no selection satisfies the constraints')
    return max(k['nsec'][:k['n']]) > 1


@CHECK.clause('groups', st.fixed_dictionaries({
    'kind': st.sampled_from(['CONTINUOUS', 'DISCRETE', 'INDEX']), 'n': st.integers(1, 3),
    'lists': st.lists(st.lists(VAL, min_size=2, max_size=4, unique=True), min_size=3, max_size=3),
    'nobj': st.integers(1, 3), 'pairs': st.booleans(), 'f': POINT, 'val': st.booleans()}),
    quick=500, thorough=5000, rule='variable groups; non-trivial with several attributes or objects')
def groups(k):
    from metku.optimization.variable_group import VariableGroup, VariableTypeEnum

    class Obj:
        p = q = r = 0.0
    objs = [Obj() for _ in range(k['nobj'])]
    attrs = ['p', 'q', 'r'][:k['n']]
    kw = {'object': objs[0]} if len(objs) == 1 else {'objects': objs}
    kind = k['kind']
    if kind == 'INDEX':
        vals = k['lists'][0]
        vg = VariableGroup('g', VariableTypeEnum.INDEX, attribute='p', values=vals, **kw)
        need(len(vg.variables) == 1, 'number of variables')
        v = vg.variables[0]
        need(v.value == 0 and v.lb == 0 and v.ub == len(vals) - 1, 'index variable')
        j = int(k['f'][0] * (len(vals) - 1))
        v.substitute(j)
        for o in objs:
            need(o.p == vals[j], 'substitution')
        return len(objs) > 1
    lb = [min(a) for a in k['lists']][:k['n']]
    ub = [max(a) for a in k['lists']][:k['n']]
    if k['val']:
        kw['value'] = [a[0] for a in k['lists']][:k['n']]
    if kind == 'CONTINUOUS':
        at = [[a, 'r'] if k['pairs'] and a == 'p' else a for a in attrs]
        vg = VariableGroup('g', VariableTypeEnum.CONTINUOUS, attributes=at, lower_bounds=lb, upper_bounds=ub, **kw)
    else:
        at = attrs
        vg = VariableGroup('g', VariableTypeEnum.DISCRETE, attributes=attrs, values=k['lists'][:k['n']], **kw)
    need(len(vg.variables) == k['n'], 'number of variables')
    for i, v in enumerate(vg.variables):
        need((v.lb, v.ub) == (lb[i], ub[i]), 'bounds')
        need(v.value == (k['lists'][i][0] if k['val'] else 0), 'value')
        x = k['lists'][i][int(k['f'][i] * (len(k['lists'][i]) - 1))]
        v.substitute(x)
        for o in objs:
            for a in (at[i] if isinstance(at[i], list) else [at[i]]):
                need(getattr(o, a) == x, 'substitution')
    return k['n'] > 1 or len(objs) > 1
