"""F01: linear static analysis of plane frames vs. elastic frame theory."""
import numpy as np
from hypothesis import strategies as st

from lib import genframe, refframe
from lib.harness import Check, Skip, check_vec, need

CHECK = Check('F01', 'the structure is stable (reference condition number '
              'below the limit), loaded, and has a non-zero response',
              ['member lengths are handled by the code at 0.001 mm resolution; '
               'exact-geometry clauses use lengths representable on that grid',
               'end moments/forces compared in the code\'s own sign convention'])


def prepare(m, limit=1e7):
    ref = refframe.Frame2D(m)
    for i, s in enumerate(m['supports']):
        need(True)
    fr = ref.factor(1)
    if fr is None or len(fr[0]) == 0 or fr[2] > limit:
        raise Skip('unstable')
    return ref


def compare(m, fem, ref, case, rtol, sid=1):
    u = ref.solve(case, sid)
    U = np.array([u[3 * i:3 * i + 3] for i in range(len(m['nodes']))])
    got = np.array([[float(v) for v in n.u[case]] for n in fem.nodes])
    has_rot = {i for e in m['elems'] if e['type'] == 'beam' for i in e['n']}
    ts = np.abs(U[:, :2]).max()
    rs = np.abs(U[:, 2]).max()
    Lc = max(i['L'] for i in ref.info)
    ts = max(ts, rs * Lc)
    check_vec(got[:, :2], U[:, :2], 'displacements', 0, rtol * ts + 1e-12)
    for i in has_rot:
        check_vec(got[i, 2], U[i, 2], f'rotation of node {i}', 0,
                  rtol * ts / Lc * 4 + 1e-15)
    R = ref.end_forces(u, case)
    # scale of the force state, floored by the scale of the loading
    Fs = max(max(np.abs(r[[0, 1, 3, 4]]).max() for r in R), 1.0)
    Ms = max(max(np.abs(r[[2, 5]]).max() for r in R), 1e3)
    Fs = max(Fs, Ms / Lc)
    Ms = max(Ms, Fs * Lc)
    for k, (el, r) in enumerate(zip(fem.elements, R)):
        f = el.fint[case]
        if m['elems'][k]['type'] == 'beam':
            check_vec(f['fx'], [-r[0], r[3]], f'axial force of member {k}', 0,
                      rtol * Fs * 4)
            check_vec(f['fz'], [r[1], -r[4]], f'shear force of member {k}', 0,
                      rtol * Fs * 4)
            check_vec(f['my'], [-r[2], r[5]], f'bending moment of member {k}',
                      0, rtol * Ms * 4)
        else:
            check_vec(f['fx'], [r[3], r[3]], f'axial force of bar {k}', 0,
                      rtol * Fs * 4)
    return u, R


def run(case, rtol):
    m = case['model']
    ref = prepare(m)
    fem = genframe.build(m)
    fem.add_loadcase(supp_id=1, load_id=2)
    fem.nodal_dofs()
    kw = {} if case['method'] is None else {'support_method': case['method']}
    fem.linear_statics(lcase=2, **kw)
    u, R = compare(m, fem, ref, 2, rtol)
    if np.abs(u).max() == 0:
        return False
    kinds = {e['type'] for e in m['elems']} | {
        'release' for e in m['elems'] if e.get('rel')} | {
        'semi-rigid' for e in m['elems'] if e.get('rot')}
    return '+'.join(sorted(kinds))


METHODS = st.sampled_from(['REM', 'REM', 'REM', 'ZERO', None])


def strat(**kw):
    return st.fixed_dictionaries({'model': genframe.frame(**kw),
                                  'method': METHODS})


@CHECK.clause('reference', strat(), quick=1500, thorough=60000,
              rule='displacements and member end forces equal the reference')
def reference(case):
    return run(case, 2e-6)


@CHECK.clause('beams', strat(rods=False, releases=False, semi=False),
              quick=500, thorough=20000, rule='rigidly jointed frames')
def beams(case):
    return run(case, 2e-6)


@CHECK.clause('any-direction', strat(exact=False), quick=600, thorough=30000,
              rule='arbitrary member directions (lengths off the 0.001 grid)')
def any_direction(case):
    return run(case, 1e-3)


@CHECK.clause('equilibrium', strat(max_nodes=8), quick=400, thorough=20000,
              rule='node equilibrium of the reported end forces')
def equilibrium(case):
    """Judged from the reported member forces alone."""
    m = case['model']
    ref = prepare(m)
    fem = genframe.build(m)
    fem.add_loadcase(supp_id=1, load_id=2)
    fem.nodal_dofs()
    kw = {} if case['method'] is None else {'support_method': case['method']}
    fem.linear_statics(lcase=2, **kw)
    n = len(m['nodes'])
    bal = np.zeros(3 * n)
    for l in m['loads']:
        if l['type'] == 'point':
            bal[3 * l['node']:3 * l['node'] + 3] += \
                np.array(l['v']) * l.get('f', 1.0)
    scale = np.abs(bal).max()
    # forces of unloaded members are rounded like those of the whole frame
    total = scale + sum(max(map(abs, l['q'])) * abs(l.get('f', 1.0)) * ref.info[l['el']]['L']
                        for l in m['loads'] if l['type'] == 'line')
    fs = 0.0
    for e, inf, el in zip(m['elems'], ref.info, fem.elements):
        f = el.fint[2]
        if e['type'] == 'beam':
            r = np.array([-f['fx'][0], f['fz'][0], -f['my'][0],
                          f['fx'][1], -f['fz'][1], f['my'][1]], dtype=float)
            rel = e.get('rel', [])
            need(np.all(np.abs(r[rel]) <= 1e-6 * (np.abs(r).max() + 1)),
                 'released end force is not zero')
            # member equilibrium under its own loads
            q = np.zeros(2)
            mom = 0.0
            for l in m['loads']:
                if l['type'] == 'line' and m['elems'][l['el']] is e:
                    a, b = np.array(l['q']) * l.get('f', 1.0)
                    L = inf['L']
                    tot = 0.5 * (a + b) * L
                    arm = (a + 2 * b) * L * L / 6.0
                    if l['coords'] == 'local':
                        d = np.array([1.0, 0]) if l['dir'] == 'x' else \
                            np.array([0, 1.0])
                    else:
                        d = np.array([inf['c'], -inf['s']]) \
                            if l['dir'] == 'x' else \
                            np.array([inf['s'], inf['c']])
                    q += tot * d
                    mom += arm * d[1]
            s = max(np.abs(r).max(), abs(q).max(), 0.1 * total, 1.0)
            check_vec([r[0] + r[3] + q[0], r[1] + r[4] + q[1]], [0, 0],
                      'member force equilibrium', 0, 1e-6 * s)
            check_vec(r[2] + r[5] + r[4] * inf['L'] + mom, 0,
                      'member moment equilibrium', 0, 1e-6 * s * inf['L'])
        else:
            r = np.array([-f['fx'][0], 0, 0, f['fx'][1], 0, 0], dtype=float)
        g = refframe.rot(inf['c'], inf['s']).T @ r
        bal[3 * inf['i']:3 * inf['i'] + 3] -= g[:3]
        bal[3 * inf['j']:3 * inf['j'] + 3] -= g[3:]
        fs = max(fs, np.abs(g).max())
    scale = max(scale, fs, 1.0)
    fx = ref.fixed(1)
    free = [i for i in range(3 * n) if i not in fx]
    check_vec(bal[free], np.zeros(len(free)), 'nodal equilibrium', 0,
              2e-6 * scale)
    return fs > 1e-6
