"""F05: second-order elastic analysis of plane frames."""
import math

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from lib import genframe, refframe
from lib.harness import Check, Skip, check_close, check_vec

CHECK = Check('F05', 'some member is compressed to more than 2 % of its Euler '
              'load and the structure is below its critical load',
              ['the axial forces are those of the first-order analysis and '
               'tension members are treated by first-order theory, as the '
               'code documents', 'line loads are uniform'])
NSUB = 24


def refined(m):
    """Model with every member cut into NSUB pieces, for the reference."""
    nodes = [list(p) for p in m['nodes']]
    elems, parents, loads = [], [], []
    for e in m['elems']:
        i, j = e['n']
        a, b = np.array(nodes[i]), np.array(nodes[j])
        prev = i
        ids = []
        for k in range(1, NSUB + 1):
            if k < NSUB:
                nodes.append(list(a + (b - a) * k / NSUB))
                nxt = len(nodes) - 1
            else:
                nxt = j
            rel = []
            if k == 1 and 2 in e.get('rel', []):
                rel.append(2)
            if k == NSUB and 5 in e.get('rel', []):
                rel.append(5)
            elems.append(dict(e, n=[prev, nxt], rel=rel))
            ids.append(len(elems) - 1)
            prev = nxt
        parents.append(ids)
    for l in m['loads']:
        if l['type'] == 'line':
            for k in parents[l['el']]:
                loads.append(dict(l, el=k))
        else:
            loads.append(l)
    return {'nodes': nodes, 'elems': elems, 'supports': m['supports'],
            'loads': loads}, parents


def ref_second(m, R1):
    rm, parents = refined(m)
    ref = refframe.Frame2D(rm)
    K = ref.stiffness()
    KG = np.zeros_like(K)
    kloc = []
    for p, ids in enumerate(parents):
        N = min(0.0, R1[p][3])
        for k in ids:
            inf = ref.info[k]
            B = ref.B(rm['elems'][k], inf)
            KG += B.T @ refframe.beam_kg(N, inf['L']) @ B
    fixed = ref.fixed(1)
    free = np.array([i for i in range(ref.size) if i not in fixed])
    Kt = (K + KG)[np.ix_(free, free)]
    # margin to the critical load
    d = np.sqrt(np.diag(K)[free])
    w = np.linalg.eigvalsh(Kt / np.outer(d, d))
    w0 = np.linalg.eigvalsh(K[np.ix_(free, free)] / np.outer(d, d))
    if w[0] < 0.05 * w0[0]:
        raise Skip('near or above the critical load')
    u = np.zeros(ref.size)
    p = ref.load(2)
    u[free] = np.linalg.solve(Kt, p[free])
    ends = []
    for q, ids in enumerate(parents):
        N = min(0.0, R1[q][3])
        r = []
        for k in (ids[0], ids[-1]):
            e, inf = rm['elems'][k], ref.info[k]
            kk = refframe.beam_k(e['E'], e['A'], e['I'], inf['L']) + \
                refframe.beam_kg(N, inf['L'])
            r.append(kk @ (ref.B(e, inf) @ u) - ref.local_load(e, inf, 2))
        ends.append(np.concatenate([r[0][:3], r[1][3:]]))
    return u, ends


@st.composite
def case_(draw):
    m = draw(genframe.frame(max_nodes=4, rods=False, semi=False))
    for e in m['elems']:
        if e.get('rel') and set(e['rel']) - {2, 5}:
            e['rel'] = [2]
    for l in m['loads']:
        if l['type'] == 'line':
            l['q'] = [l['q'][0], l['q'][0]]
            a, b = (m['nodes'][i] for i in m['elems'][l['el']]['n'])
            if l['coords'] == 'local' or (a[0] != b[0] and a[1] != b[1]):
                l['coords'], l['dir'] = 'local', 'y'
            else:
                l['dir'] = 'x' if a[0] == b[0] else 'y'
    return {'model': m, 'level': draw(st.sampled_from([0.05, 0.2, 0.4, 0.6])),
            'method': draw(st.sampled_from(['REM', 'REM', 'ZERO']))}


@CHECK.clause('reference', case_(), quick=400, thorough=12000,
              rule='displacements and end forces vs. refined geometric-'
              'stiffness model')
def reference(case):
    m = case['model']
    if not genframe.stable(m, 1e5):
        raise Skip('unstable')
    ref = refframe.Frame2D(m)
    # scale the loads to the wanted fraction of the critical load
    u1 = ref.solve(2, 1)
    R1 = ref.end_forces(u1, 2)
    if max(abs(r[3]) for r in R1) < 1e-5 * max(
            max(np.abs(r[[0, 1, 3, 4]]).max(), np.abs(r[[2, 5]]).max() / i['L'])
            for r, i in zip(R1, ref.info)) or np.abs(u1).max() == 0:
        return False
    fr = ref.factor(1)
    mx = 0.0
    for sgn in (1.0, -1.0):
        R1 = [r * sgn for r in ref.end_forces(u1, 2)]
        acting = max(max(np.abs(ref.local_load(e, i, 2)[[0, 1, 3, 4]]).max()
                         for e, i in zip(m['elems'], ref.info)),
                     np.abs(ref.load(2)).max() / 1e3)
        if -min(r[3] for r in R1) < 1e-7 * acting:
            continue                      # self-balanced loads leave round-off only
        ri = [np.where(np.arange(6) == 3, min(0.0, r[3]), r) for r in R1]
        KG = ref.geometric(ri)[np.ix_(fr[0], fr[0])]
        mu = scipy.linalg.eigh(-KG, fr[1], eigvals_only=True)[-1]
        lmax = max(max(0, -r[3]) / (e['E'] * e['I']) * i['L'] ** 2
                   for r, e, i in zip(R1, m['elems'], ref.info))
        if lmax > 0 and min(r[3] for r in R1) < -1e-5 * max(
                abs(r[3]) for r in R1) and mu > 0:
            # member buckling limits as well (single elements are too stiff)
            mx = max(mu, lmax / math.pi ** 2)
            break
    if mx <= 0:
        raise Skip('no compression')
    for l in m['loads']:
        l['f'] = l['f'] * sgn * case['level'] / mx
    ref = refframe.Frame2D(m)
    # distributed loads along a member make its axial force vary, which the
    # method does not describe
    for l in m['loads']:
        if l['type'] == 'line':
            inf = ref.info[l['el']]
            if l['coords'] == 'local' and l['dir'] == 'x':
                raise Skip('axial line load')
            if l['coords'] == 'global' and abs(
                    inf['c'] if l['dir'] == 'x' else inf['s']) > 1e-9:
                raise Skip('axial line load')
    u1 = ref.solve(2, 1)
    R1 = ref.end_forces(u1, 2)
    lam = [math.sqrt(max(0, -r[3]) / (e['E'] * e['I'])) * i['L']
           for r, e, i in zip(R1, m['elems'], ref.info)]
    if max(lam) > 2.2 * math.pi:
        raise Skip('far above the critical load')
    u, ends = ref_second(m, R1)
    fem = genframe.build(m)
    fem.add_loadcase(supp_id=1, load_id=2)
    fem.nodal_dofs()
    fem.second_order_analysis(lcase=2, support_method=case['method'])
    n = len(m['nodes'])
    U = u[:3 * n].reshape(n, 3)
    got = np.array([[float(v) for v in nd.u2[2]] for nd in fem.nodes])
    Lc = max(i['L'] for i in ref.info)
    ts = max(np.abs(U[:, :2]).max(), Lc * np.abs(U[:, 2]).max(), 1e-9)
    rt = 2e-3
    check_vec(got[:, :2], U[:, :2], 'second-order displacements', 0, rt * ts)
    check_vec(got[:, 2], U[:, 2], 'second-order rotations', 0, rt * ts / Lc * 3)
    Fs = max(max(np.abs(r[[0, 1, 3, 4]]).max() for r in ends), 1.0)
    Ms = max(max(np.abs(r[[2, 5]]).max() for r in ends), Fs * Lc * 1e-2)
    Fs = max(Fs, Ms / Lc)
    for k, (el, r) in enumerate(zip(fem.elements, ends)):
        f = el.fint2[2]
        check_vec(f['fx'], [-r[0], r[3]], f'axial force of member {k}', 0,
                  rt * Fs * 3)
        check_vec(f['fz'], [r[1], -r[4]], f'shear force of member {k}', 0,
                  rt * Fs * 3)
        check_vec(f['my'], [-r[2], r[5]], f'moment of member {k}', 0,
                  rt * Ms * 3)
    return max(lam) > 0.02 * math.pi


@CHECK.clause('amplification', st.fixed_dictionaries({
    'kind': st.sampled_from(['cantilever', 'beam-q', 'beam-m']),
    'rho': st.floats(0.02, 0.9).map(lambda x: round(x, 3)),
    'L': st.integers(20, 120), 'I': st.integers(100, 50000),
    'deg': st.sampled_from([0, 90, 180, 270]), 'rev': st.booleans(),
    'coords': st.sampled_from(['global', 'local']),
    'method': st.sampled_from(['REM', 'ZERO'])}),
    quick=300, thorough=8000, rule='closed-form beam-column solutions')
def amplification(case):
    from metku.framefem import framefem as ff
    from metku.framefem.elements import EBBeam
    L, I, E = case['L'] * 100.0, case['I'] * 1e4, 210000.0
    c = round(math.cos(math.radians(case['deg'])))
    s = round(math.sin(math.radians(case['deg'])))
    kind = case['kind']
    fem = ff.FrameFEM()
    fem.add_node(0.0, 0.0)
    fem.add_node(c * L, s * L)
    mat = fem.add_material(E, 0.3, 7850e-9)
    rev = case['rev']
    p, q = (1, 0) if rev else (0, 1)
    el = EBBeam(fem.nodes[p], fem.nodes[q], ff.BeamSection(1e5, I), mat)
    fem.add_element(el)
    along = [c, s]
    if kind == 'cantilever':
        Pcr = math.pi ** 2 * E * I / (4 * L * L)
        P = case['rho'] * Pcr
        H = 1000.0
        fem.add_support(1, 0, [0, 1, 2])
        fem.add_load(ff.PointLoad(2, fem.nodes[1],
                                  [-P * c - H * s, -P * s + H * c, 0], 1.0))
        k = math.sqrt(P / (E * I))
        M = H * math.tan(k * L) / k
        d = (M - H * L) / P
    else:
        Pcr = math.pi ** 2 * E * I / (L * L)
        P = case['rho'] * Pcr
        fem.add_support(1, 0, [0, 1])
        # roller: fixed across the member
        fem.add_support(1, 1, [1 if c else 0])
        fem.add_load(ff.PointLoad(2, fem.nodes[1], [-P * c, -P * s, 0], 1.0))
        k = math.sqrt(P / (E * I))
        u = k * L / 2
        if kind == 'beam-q':
            w = 2.0
            # positive transverse = 90 deg ccw from the axis 0 -> 1
            if case['coords'] == 'local':
                fem.add_load(ff.LineLoad(2, el, [0, 1], [w, w] if not rev
                                         else [-w, -w], 'y', coords='local'))
            else:
                sg = w * (c if c else -s)
                fem.add_load(ff.LineLoad(2, el, [0, 1], [sg, sg],
                                         'y' if c else 'x'))
            # end rotation of a simply supported beam-column
            th = w / (k ** 3 * E * I) * (math.tan(u) - u)
        else:
            M0 = 1e6
            fem.add_load(ff.PointLoad(2, fem.nodes[0], [0, 0, M0], 1.0))
            th = M0 / P * (1 / L - k / math.tan(k * L)) if True else 0
    fem.add_loadcase(1, 2)
    fem.nodal_dofs()
    fem.second_order_analysis(lcase=2, support_method=case['method'])
    u2 = [[float(x) for x in n.u2[2]] for n in fem.nodes]
    if kind == 'cantilever':
        check_close(-u2[1][0] * s + u2[1][1] * c, d, 'tip deflection', 1e-5)
        check_close(abs(el.fint2[2]['my'][1 if rev else 0]), M,
                    'support moment', 1e-5)
    else:
        check_close(u2[0][2], th, 'end rotation', 1e-5)
    return case['rho'] > 0.05
