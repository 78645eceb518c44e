"""O03: truss optimisation as a mixed-integer linear program finds the lightest truss that carries its loads."""
import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gentruss
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('O03', 'the optimum has at least two profiles and is not the lightest or the heaviest assignment',
              ['pin-jointed plane trusses of square tubes', 'sizing (no vanishing members)'])
SHS = [(50, 3), (60, 4), (80, 4), (80, 6), (100, 5), (120, 6), (150, 8)]


@st.composite
def problems(draw):
    nb = draw(st.integers(2, 5))
    kind = draw(st.sampled_from(['fan', 'fan', 'tri', 'quad']))
    L = draw(st.sampled_from([1500, 2500, 3200]))
    off = st.sampled_from([0, 0, 150, -340])
    if kind == 'fan':           # one free node
        X = [[0, 0]] + [[i * L + draw(off), L + draw(off)] for i in (-1, 0, 1, 2, -2)][:max(nb, 2)]
        mem = [[0, i] if draw(st.booleans()) else [i, 0] for i in range(1, len(X))]
        sup = [[i, 'xy'] for i in range(1, len(X))]
        free = [0]
    elif kind == 'tri':
        X = [[0, 0], [L, draw(off)], [L / 2 + draw(off), L * 0.8]]
        mem = [[0, 1], [1, 2], [2, 0]]
        sup = [[0, 'xy'], [1, draw(st.sampled_from(['y', 'xy']))]]
        free = [2]
        if sup[1][1] == 'xy':
            mem = mem[1:]
    else:                       # two free nodes
        X = [[0, 0], [0, L], [L + draw(off), 0], [L, L + draw(off)]]
        mem = [[0, 2], [1, 3], [2, 3], [0, 3]] + ([[1, 2]] if draw(st.booleans()) else [])
        sup = [[0, 'xy'], [1, 'xy']]
        free = [2, 3]
    F = st.sampled_from([0, 3e4, -8e4, 2e5, -2.5e5, 4e5])
    nc = draw(st.sampled_from([1, 1, 2, 2, 3]))
    loads = [{'n': free[draw(st.integers(0, len(free) - 1))], 'v': [draw(F), draw(F)], 'case': draw(st.sampled_from([2, 5, 7])) if c else 2, 'f': 1.0}
             for c in range(nc)]
    prof = sorted(draw(st.lists(st.integers(0, len(SHS) - 1), min_size=2, max_size=4 if len(mem) > 3 else 5, unique=True)))
    sub = [draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, len(prof) - 1), min_size=1, max_size=4, unique=True))) for _ in mem]
    group = sorted(draw(st.lists(st.integers(0, len(mem) - 1), max_size=3, unique=True)))
    return {'X': X, 'mem': mem, 'sup': sup, 'group': group, 'gprof': draw(st.sampled_from([None, [0], [1, 0], [2, 1], [0, 2]])), 'loads': loads, 'prof': prof, 'sub': sub,
            'how': draw(st.sampled_from(['member_profiles', 'groups'])), 'N': draw(st.sampled_from([1e-3, 1e-3, 5e-4])),
            'u': draw(st.sampled_from([1.0, 0.1])), 'lim': draw(st.sampled_from([50, 50, 8, 5, 3, 0.4])), 'asym': draw(st.sampled_from([1, 1, 0.5, 1.7, 0.1, 10]))}


@CHECK.clause('sizing', problems(), quick=260, thorough=8000, rule='the optimum has at least two profiles, several load cases or a limit of displacements decides')
def sizing(k):
    from metku.frame2d import frame2d as f2
    from metku.frame2d.simple_truss import SimpleTruss
    from metku.optimization.problems.truss_milp import TrussMILP
    from metku.optimization.solvers.milp import MILP
    from metku.sections.steel.RHS import SHS as Tube
    from metku.structures.steel.steel_member import SteelMember
    P = [Tube(*SHS[i]) for i in k['prof']]
    T = SimpleTruss([list(x) for x in k['X']], [list(m) for m in k['mem']], ['SHS 50X50X3.0'] * len(k['mem']))
    for a, s in k['sup']:
        T.add({'xy': f2.XYHingedSupport, 'y': f2.YHingedSupport}[s](list(k['X'][a])))
    for i, l in enumerate(k['loads']):
        T.add(f2.PointLoad(list(k['X'][l['n']]), [*l['v'], 0], load_id=l['case'], name=f'p{i}'))
    T.generate()
    T.f.nodal_dofs()
    cases = sorted({l['case'] for l in k['loads']})
    allowed = [s if s is not None else list(range(len(P))) for s in k['sub']]
    kw = {}
    if any(s is not None for s in k['sub']):
        if k['how'] == 'groups':
            kw['groups'] = [{'members': [i], 'profiles': list(s)} for i, s in enumerate(k['sub']) if s is not None]
        else:
            kw['member_profiles'] = [{'member': i, 'profiles': list(s)} for i, s in enumerate(k['sub']) if s is not None]
    lim = k['lim']
    pb = TrussMILP('t', T, P, ulb=-lim * k['asym'], uub=lim, scaling={'N': k['N'], 'u': k['u']}, **kw)
    pb.create_milp(problem_type='sizing')
    try:
        s = MILP()
        s.solve(pb.milp)
    except Exception as e:
        if 'Gurobi' in type(e).__name__:
            raise Skip('solver not available')
        raise
    # enumeration of all assignments
    refs = []
    L = [gentruss.Reference({**k, 'loads': []}, [1e3] * len(k['mem'])).L][0]
    NRd = [np.floor(p.A * 355) for p in P]
    NbRd = [[np.floor(min(SteelMember(p, l, Lcr=[1.0, 1.0], mtype='bar').NbRd)) for p in P] for l in L]
    best = {1e-3: None, -1e-3: None}
    W = [[p.A * l * 7850e-9 for p in P] for l in L]
    for c in itertools.product(*allowed):
        w = sum(W[i][p] for i, p in enumerate(c))
        if all(b is not None and w >= b[0] for b in best.values()):
            continue
        ref = gentruss.Reference(k, [P[p].A for p in c])
        r = 0.0
        for lid in cases:
            u, N = ref.solve(lid)
            r = max(r, max(u) / lim, -min(u) / lim / k['asym'])
            for i, (n, p) in enumerate(zip(N, c)):
                r = max(r, n / NRd[p] if n > 0 else -n / min(NRd[p], NbRd[i][p]))
        for d in best:
            if r <= 1 + d and (best[d] is None or w < best[d][0]):
                best[d] = (w, c, r)
    lo, hi = best[1e-3], best[-1e-3]
    if not s.feasible:
        need(hi is None, lambda: f'no truss found; {hi} carries the loads')
        return False
    need(lo is not None, lambda: f'a truss found although none carries the loads')
    x = s.X
    integral(pb, x)
    pb.substitute_design(x)
    got = pb.milp.obj(x)
    M = list(T.members.values())
    w = sum(m.cross_section.A * l * 7850e-9 for m, l in zip(M, L))
    check_close(got, w, 'objective and weight of the truss', rtol=1e-6)
    need(w >= lo[0] * (1 - 1e-6), lambda: f'weight {w}, but no truss under {lo[0]} carries the loads')
    need(hi is None or w <= hi[0] * (1 + 1e-4), lambda: f'weight {w}, but {hi[1]} weighs {hi[0]} and carries the loads')
    for m, a in zip(M, allowed):
        need(any(str(m.cross_section) == str(P[p]) for p in a), 'profile that the member must not have')
    # state variables of the program against the analysis of the design
    ref = gentruss.Reference(k, [m.cross_section.A for m in M])
    names = {v.name: val for v, val in zip(pb.milp.vars, x)}
    for q, lid in enumerate(T.load_cases):
        u, N = ref.solve(lid)
        big = max(max(abs(N)), max(abs(ref.load(lid))))
        for i, n in enumerate(N):
            f = sum(names[v.name] for v in pb.vars['force'][i][q])
            check_close(f / k['N'], n, f'force of member {i} in load case {lid}', rtol=1e-3, atol=2e-3 * big)
    return len({str(m.cross_section) for m in M}) > 1 and (len(cases) > 1 or lim < 20)


@CHECK.clause('relaxed', problems(), quick=120, thorough=3000, rule='scaling of forces and lengths does not change the optimum')
def relaxed(k):
    """the same problem in other units of the program"""
    from metku.frame2d import frame2d as f2
    from metku.frame2d.simple_truss import SimpleTruss
    from metku.optimization.problems.truss_milp import TrussMILP
    from metku.optimization.solvers.milp import MILP
    from metku.sections.steel.RHS import SHS as Tube
    w = []
    for sc in ({'N': 1e-3, 'u': 1.0}, {'N': 5e-4, 'u': 1.0}, {'N': 1e-3, 'u': 0.1}):
        T = SimpleTruss([list(x) for x in k['X']], [list(m) for m in k['mem']], ['SHS 50X50X3.0'] * len(k['mem']))
        for a, s in k['sup']:
            T.add({'xy': f2.XYHingedSupport, 'y': f2.YHingedSupport}[s](list(k['X'][a])))
        for i, l in enumerate(k['loads']):
            T.add(f2.PointLoad(list(k['X'][l['n']]), [*l['v'], 0], load_id=l['case'], name=f'p{i}'))
        T.generate()
        T.f.nodal_dofs()
        pb = TrussMILP('t', T, [Tube(*SHS[i]) for i in k['prof']], ulb=-k['lim'] * k['asym'], uub=k['lim'], scaling=sc)
        pb.create_milp()
        s = MILP()
        try:
            s.solve(pb.milp)
        except Exception as e:
            if 'Gurobi' in type(e).__name__:
                raise Skip('solver not available')
            raise
        if s.feasible:
            integral(pb, s.X)
        w.append(pb.milp.obj(s.X) if s.feasible else None)
    need(len({x is None for x in w}) == 1, 'feasibility depends on the units')
    if w[0] is None:
        return False
    check_vec(w, [w[0]] * 3, 'weight in other units', rtol=1e-4)
    return True


def integral(pb, X):
    """the solver kept to the integers (big-M can defeat it)"""
    ys = {v.name for q in pb.vars['profile'] for v in q}
    if any(v.name in ys and abs(x - round(x)) > 1e-6 for v, x in zip(pb.milp.vars, X)):
        raise Skip('solution of the solver is not integral')


def state(k, areas, E, lid, lim, lo):
    """forces of the existing members E, with the smallest largest displacement; None when they cannot carry the loads"""
    from scipy.optimize import linprog
    X = np.array(k['X'], float)
    fix = {(a, d) for a, s in k['sup'] for d, ch in enumerate('xy') if ch in s}
    dof = [(n, d) for n in range(len(X)) for d in (0, 1) if (n, d) not in fix]
    B = np.zeros((len(dof), len(E)))
    kk = np.zeros(len(E))
    for c, i in enumerate(E):
        a, b = k['mem'][i]
        v = X[b] - X[a]
        L = np.hypot(*v)
        for n, s in ((a, -1), (b, 1)):
            for d in (0, 1):
                if (n, d) in dof:
                    B[dof.index((n, d)), c] = s * v[d] / L
        kk[c] = 210e3 * areas[i] / L
    p = np.zeros(len(dof))
    for l in k['loads']:
        if l['case'] == lid:
            for d in (0, 1):
                if (l['n'], d) in dof:
                    p[dof.index((l['n'], d))] += l['v'][d]
    K = B @ np.diag(kk) @ B.T
    u = np.linalg.pinv(K, rcond=1e-9) @ p
    if np.abs(K @ u - p).max() > 1e-6 * max(np.abs(p).max(), 1):
        return None
    w, V = np.linalg.eigh(K)
    Z = V[:, w < 1e-9 * max(w.max(), 1)]
    if Z.shape[1]:
        n, m = Z.shape
        A = np.block([[Z, -lim * np.ones((n, 1))], [-Z, -lo * np.ones((n, 1))]])
        r = linprog([0] * m + [1], A_ub=A, b_ub=np.concatenate([-u, u]), bounds=[(None, None)] * m + [(0, None)])
        u = u + Z @ r.x[:m]
    return kk * (B.T @ u), max(u.max() / lim, -u.min() / lo)


@CHECK.clause('topology', problems(), quick=120, thorough=4000, rule='some member vanishes and the remaining ones carry loads')
def topology(k):
    """members may vanish; members of a group have the same profile"""
    from metku.frame2d import frame2d as f2
    from metku.frame2d.simple_truss import SimpleTruss
    from metku.optimization.problems.truss_milp import TrussMILP
    from metku.optimization.solvers.milp import MILP
    from metku.sections.steel.RHS import SHS as Tube
    from metku.structures.steel.steel_member import SteelMember
    P = [Tube(*SHS[i]) for i in k['prof'][:3]]
    T = SimpleTruss([list(x) for x in k['X']], [list(m) for m in k['mem']], ['SHS 50X50X3.0'] * len(k['mem']))
    for a, s in k['sup']:
        T.add({'xy': f2.XYHingedSupport, 'y': f2.YHingedSupport}[s](list(k['X'][a])))
    for i, l in enumerate(k['loads']):
        T.add(f2.PointLoad(list(k['X'][l['n']]), [*l['v'], 0], load_id=l['case'], name=f'p{i}'))
    T.generate()
    T.f.nodal_dofs()
    nm = len(k['mem'])
    group = k['group'] if len(k['group']) > 1 else []
    gp = [p for p in k['gprof'] or range(len(P)) if p < len(P)]
    kw = {'groups': [{'members': group, 'profiles': gp}]} if group else {}
    lim = k['lim']
    pb = TrussMILP('t', T, P, ulb=-lim * k['asym'], uub=lim, scaling={'N': 1e-3, 'u': k['u']}, **kw)
    pb.create_milp(problem_type='topology')
    try:
        s = MILP()
        s.solve(pb.milp)
    except Exception as e:
        if 'Gurobi' in type(e).__name__:
            raise Skip('solver not available')
        raise
    X = np.array(k['X'], float)
    L = [np.hypot(*(X[b] - X[a])) for a, b in k['mem']]
    cases = sorted({l['case'] for l in k['loads']})
    sup = {a: len(s) for a, s in k['sup']}
    NRd = [np.floor(p.A * 355) for p in P]
    NbRd = [[np.floor(min(SteelMember(p, l, Lcr=[1.0, 1.0], mtype='bar').NbRd)) for p in P] for l in L]
    best = {1e-3: None, -1e-3: None}
    for c in itertools.product([None] + list(range(len(P))), repeat=nm):
        E = [i for i in range(nm) if c[i] is not None]
        if len({c[i] for i in group if c[i] is not None}) > 1 or any(c[i] is not None and c[i] not in gp for i in group):
            continue
        w = sum(P[c[i]].A * L[i] * 7850e-9 for i in E)
        if all(b is not None and w >= b[0] for b in best.values()):
            continue
        deg = {n: sum(n in k['mem'][i] for i in E) for n in range(len(X))}
        on = [n for n in deg if deg[n]]
        if any(deg[n] < (1 if n in sup else 2) for n in on) or sum(n in sup for n in on) < 2:
            continue
        if len(E) < 2 * len(on) - sum(sup.get(n, 0) for n in on):
            continue
        r = 0.0
        areas = [P[j].A if j is not None else 0 for j in c]
        for lid in cases:
            q = state(k, areas, E, lid, lim, lim * k['asym'])
            if q is None:
                r = np.inf
                break
            r = max(r, q[1], *[n / NRd[c[i]] if n > 0 else -n / min(NRd[c[i]], NbRd[i][c[i]]) for n, i in zip(q[0], E)])
        for d in best:
            if r <= 1 + d and (best[d] is None or w < best[d][0]):
                best[d] = (w, c, r)
    lo, hi = best[1e-3], best[-1e-3]
    if not s.feasible:
        need(hi is None, lambda: f'no truss found; {hi} carries the loads')
        return False
    need(lo is not None, lambda: f'a truss found although none carries the loads')
    integral(pb, s.X)
    got = pb.milp.obj(s.X)
    need(got >= lo[0] * (1 - 1e-6), lambda: f'weight {got}, but no truss under {lo} carries the loads')
    need(hi is None or got <= hi[0] * (1 + 1e-4), lambda: f'weight {got}, but {hi[1]} weighs {hi[0]} and carries the loads')
    return hi is not None and None in hi[1] and any(v for l in k['loads'] for v in l['v'])
