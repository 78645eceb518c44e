"""F03: space frames and space trusses under nodal loads."""
import numpy as np
from hypothesis import strategies as st

from lib import refframe
from lib.harness import Check, Skip, check_vec

CHECK = Check('F03', 'stable structure with a non-zero response',
              ['line loads on space beams are outside the claim (documented '
               'as not implemented)'])

SEC = [(2848.0, 1.943e7, 1.424e6, 7.0e4), (5381.0, 8.356e7, 6.038e6, 2.0e5),
       (7684.0, 1.0e7, 1.0e7, 1.6e7), (1500.0, 1.0e6, 5.0e5, 2.0e4)]


@st.composite
def space(draw, truss=False):
    # box-shaped lattice of 3-4-12 cells: 3-4-5 diagonals in plan and 5-12-13
    # space diagonals keep member lengths on the 0.001 grid
    s = draw(st.integers(10, 40)) * 10.0
    n = draw(st.integers(2, 5))
    pos = [(0, 0, 0)]
    # almost vertical / almost parallel to y (21-220-221)
    tilt = [tuple(v * f for v, f in zip(t, (1 / 60, 1 / 80, 1 / 240)))
            for t in ((21, 0, 220), (0, 21, 220), (0, -21, -220), (21, 220, 0),
                      (0, 220, 21))]
    edges = []
    steps = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (-1, 1, 0), (1, 1, 1),
             (-1, 0, 0), (0, 0, -1), (1, -1, 1), (0, -1, 0)]
    for k in range(1, n):
        b = draw(st.integers(0, k - 1))
        cand = list(draw(st.permutations(steps)))
        if draw(st.integers(0, 3)) == 3:
            cand.insert(0, draw(st.sampled_from(tilt)))
        for t in cand:
            q = tuple(a + c for a, c in zip(pos[b], t))
            if q not in pos:
                break
        pos.append(q)
        edges.append([b, k] if draw(st.booleans()) else [k, b])
    nodes = [[3 * p[0] * s, 4 * p[1] * s, 12 * p[2] * s] for p in pos]
    elems = []
    for e in edges:
        A, Iy, Iz, J = draw(st.sampled_from(SEC))
        elems.append({'type': 'beam', 'n': e, 'E': 210000.0, 'G': 81000.0,
                      'A': A, 'Iy': Iy, 'Iz': Iz, 'J': J})
    for _ in range(draw(st.integers(0, 2))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if i != j:
            elems.append({'type': 'rod', 'n': [i, j], 'E': 210000.0,
                          'A': draw(st.sampled_from([500.0, 2000.0]))})
    sup = [{'node': 0, 'dofs': [0, 1, 2, 3, 4, 5]}]
    if draw(st.booleans()):
        sup.append({'node': draw(st.integers(0, n - 1)), 'dofs': draw(
            st.sampled_from([[0, 1, 2], [2], [1, 2], [0, 3]]))})
    loads = [{'node': draw(st.integers(0, n - 1)),
              'v': [1000.0 * draw(st.integers(-20, 20)) for _ in range(3)]
              + [1e6 * draw(st.integers(-10, 10)) for _ in range(3)]}
             for _ in range(draw(st.integers(1, 3)))]
    return {'nodes': nodes, 'elems': elems, 'supports': sup, 'loads': loads,
            'method': draw(st.sampled_from(['REM', 'ZERO'])), 'truss': truss}


@st.composite
def truss3(draw):
    """Tripods stacked into a space truss (n >= 1 free nodes)."""
    s = draw(st.integers(10, 40)) * 10.0
    base = [[0, 0, 0], [6 * s, 0, 0], [0, 8 * s, 0], [6 * s, 8 * s, 0]]
    nodes = [list(b) for b in base]
    elems = []
    for k in range(draw(st.integers(1, 4))):
        p = [draw(st.integers(-20, 80)) * s / 10,
             draw(st.integers(-20, 80)) * s / 10,
             draw(st.integers(20, 120)) * s / 10 + 3 * s * k]
        nodes.append(p)
        anchors = draw(st.permutations(range(len(nodes) - 1)))[:draw(
            st.integers(3, 4))]
        for a in anchors:
            elems.append({'type': 'rod', 'n': [a, len(nodes) - 1],
                          'E': 210000.0,
                          'A': draw(st.sampled_from([300.0, 800.0, 2500.0]))})
    sup = [{'node': i, 'dofs': [0, 1, 2]} for i in range(4)]
    loads = [{'node': draw(st.integers(4, len(nodes) - 1)),
              'v': [1000.0 * draw(st.integers(-20, 20)) for _ in range(3)]
              + [0.0, 0.0, 0.0]} for _ in range(draw(st.integers(1, 3)))]
    return {'nodes': [[float(x) for x in p] for p in nodes], 'elems': elems,
            'supports': sup, 'loads': loads, 'truss': True,
            'method': draw(st.sampled_from(['REM', 'ZERO']))}


def axes(X1, X2):
    """local axes: y is horizontal (normal to the vertical plane of the
    member); for vertical members y is fixed by a reference point in +x"""
    d = X2 - X1
    L = np.linalg.norm(d)
    ex = d / L
    up = np.array([0, 0, 1.0])
    ref = np.array([1.0, 0, 0]) if np.linalg.norm(np.cross(up, ex)) < 1e-6 \
        else up
    ey = np.cross(ref, ex)
    ey /= np.linalg.norm(ey)
    return np.array([ex, ey, np.cross(ex, ey)]), L


def reference(m):
    X = np.array(m['nodes'])
    n = len(X)
    K = np.zeros((6 * n, 6 * n))
    store = []
    rot = set()
    for e in m['elems']:
        i, j = e['n']
        ax, L = axes(X[i], X[j])
        T = np.kron(np.eye(4), ax)
        if e['type'] == 'beam':
            k = refframe.beam3_k(e['E'], e['G'], e['A'], e['Iy'], e['Iz'],
                                 e['J'], L)
            rot |= {i, j}
        else:
            k = np.zeros((12, 12))
            k[np.ix_([0, 6], [0, 6])] = e['E'] * e['A'] / L * np.array(
                [[1, -1], [-1, 1]])
        q = list(range(6 * i, 6 * i + 6)) + list(range(6 * j, 6 * j + 6))
        K[np.ix_(q, q)] += T.T @ k @ T
        store.append((T, k, q, L))
    fixed = {6 * s['node'] + d for s in m['supports'] for d in s['dofs']}
    for i in range(n):
        if i not in rot:
            fixed |= {6 * i + 3, 6 * i + 4, 6 * i + 5}
    free = [i for i in range(6 * n) if i not in fixed]
    p = np.zeros(6 * n)
    for l in m['loads']:
        p[6 * l['node']:6 * l['node'] + 6] += l['v']
    if not free:
        raise Skip('nothing free')
    Kf = K[np.ix_(free, free)]
    d = np.sqrt(np.diag(Kf))
    if np.any(d <= 0):
        raise Skip('unstable')
    w = np.linalg.eigvalsh(Kf / np.outer(d, d))
    if w[0] < w[-1] * 1e-7:
        raise Skip('unstable')
    u = np.zeros(6 * n)
    u[free] = np.linalg.solve(Kf, p[free])
    return u, [(k @ (T @ u[q]), L) for T, k, q, L in store], rot, store


def run(case, rtol):
    from metku.framefem import framefem as ff
    from metku.framefem.elements import Rod
    from metku.framefem.elements.ebbeam import EBBeam3D
    m = case
    u, R, rot, store = reference(m)
    fem = ff.FrameFEM()
    for x in m['nodes']:
        fem.add_node(*x)
    for e in m['elems']:
        a, b = (fem.nodes[i] for i in e['n'])
        mat = fem.add_material(e['E'], 0.3, 7850e-9, e.get('G'))
        if e['type'] == 'beam':
            fem.add_element(EBBeam3D(a, b, ff.BeamSection(
                e['A'], e['Iy'], e['Iz'], e['J']), mat))
        else:
            fem.add_element(Rod(a, b, ff.Section(e['A']), mat))
    for s in m['supports']:
        fem.add_support(1, s['node'], list(s['dofs']))
    for l in m['loads']:
        fem.add_load(ff.PointLoad(2, fem.nodes[l['node']], list(l['v']), 1.0))
    fem.add_loadcase(supp_id=1, load_id=2)
    fem.nodal_dofs()
    fem.linear_statics(lcase=2, support_method=m['method'])
    n = len(m['nodes'])
    U = u.reshape(n, 6)
    got = np.array([[float(v) for v in nd.u[2]] for nd in fem.nodes])
    Lc = max(L for _, L in R)
    ts = max(np.abs(U[:, :3]).max(), Lc * np.abs(U[:, 3:]).max(), 1e-12)
    check_vec(got[:, :3], U[:, :3], 'displacements', 0, rtol * ts)
    for i in rot:
        check_vec(got[i, 3:], U[i, 3:], f'rotations of node {i}', 0,
                  rtol * ts / Lc * 5)
    Fs = max(np.abs(r).max() for r, _ in R)
    Fs = max(Fs, 1.0)
    for k, (el, (r, L)) in enumerate(zip(fem.elements, R)):
        f = el.fint[2]
        check_vec(f['fx'], [-r[0], r[6]], f'axial force of member {k}', 0,
                  rtol * Fs * 2)
        if m['elems'][k]['type'] == 'beam':
            check_vec(f['fy'], [-r[1], r[7]], f'Vy of member {k}', 0,
                      rtol * Fs * 2)
            check_vec(f['fz'], [r[2], -r[8]], f'Vz of member {k}', 0,
                      rtol * Fs * 2)
            check_vec(f['mx'], [-r[3], r[9]], f'torsion of member {k}', 0,
                      rtol * Fs * 2)
            check_vec(f['my'], [-r[4], r[10]], f'My of member {k}', 0,
                      rtol * Fs * 2)
            check_vec(f['mz'], [r[5], -r[11]], f'Mz of member {k}', 0,
                      rtol * Fs * 2)
    return bool(np.abs(u).max() > 0)


@CHECK.clause('space-frame', space(), quick=500, thorough=30000,
              rule='3D beams (and bracing rods) vs. independent 3D reference')
def space_frame(case):
    return run(case, 5e-6)


@CHECK.clause('space-truss', truss3(), quick=400, thorough=20000,
              rule='pin-jointed space trusses vs. independent reference')
def space_truss(case):
    return run(case, 1e-3)


@st.composite
def inplane(draw):
    from lib import genframe
    m = draw(genframe.frame(max_nodes=5, rods=False, releases=False, semi=False,
                            line=False, load_f=False))
    return {'model': m, 'Iz': draw(st.sampled_from([1e5, 3e6])),
            'flip': draw(st.booleans())}


@CHECK.clause('plane-in-space', inplane(), quick=300, thorough=10000,
              rule='plane frame placed in the vertical xz-plane, out-of-plane '
              'fixed: same response as the plane analysis')
def plane_in_space(case):
    from lib import genframe
    from metku.framefem import framefem as ff
    from metku.framefem.elements.ebbeam import EBBeam3D
    m = case['model']
    if not genframe.stable(m):
        raise Skip('unstable')
    p = genframe.build(m)
    p.add_loadcase(1, 2)
    p.nodal_dofs()
    p.linear_statics(lcase=2, support_method='REM')
    f = ff.FrameFEM()
    for x, y in m['nodes']:
        f.add_node(x, 0.0, y)
    for e in m['elems']:
        a, b = (f.nodes[i] for i in e['n'])
        f.add_element(EBBeam3D(a, b, ff.BeamSection(
            e['A'], e['I'], case['Iz'], 1e5),
            f.add_material(e['E'], 0.3, 7850e-9)))
    fixed = {i: {1, 3, 5} for i in range(len(m['nodes']))}
    for s in m['supports']:
        fixed[s['node']] |= {{0: 0, 1: 2, 2: 4}[d] for d in s['dofs']}
    for i, d in fixed.items():
        f.add_support(1, i, sorted(d))
    for l in m['loads']:
        v = l['v']
        # positive rotation in the xz-plane turns x towards z: -ry
        f.add_load(ff.PointLoad(2, f.nodes[l['node']],
                                [v[0], 0.0, v[1], 0.0, -v[2], 0.0], 1.0))
    f.add_loadcase(1, 2)
    f.nodal_dofs()
    f.linear_statics(lcase=2, support_method='REM')
    a = np.array([[float(t) for t in n.u[2]] for n in p.nodes])
    b = np.array([[float(n.u[2][0]), float(n.u[2][2]), -float(n.u[2][4])]
                  for n in f.nodes])
    s = max(np.abs(a[:, :2]).max(), 3000 * np.abs(a[:, 2]).max())
    check_vec(b[:, :2], a[:, :2], 'in-plane displacements', 0, 1e-5 * s + 1e-12)
    check_vec(b[:, 2], a[:, 2], 'in-plane rotations', 0, 1e-8 * s + 1e-15)
    N = np.array([e.fint[2]['fx'] for e in p.elements], dtype=float)
    N3 = np.array([e.fint[2]['fx'] for e in f.elements], dtype=float)
    M = np.array([e.fint[2]['my'] for e in p.elements], dtype=float)
    M3 = np.array([e.fint[2]['my'] for e in f.elements], dtype=float)
    sc = max(np.abs(N).max(), np.abs(M).max() / 3000, 1.0)
    check_vec(N3, N, 'axial forces', 0, 1e-5 * sc)
    check_vec(np.abs(M3), np.abs(M), 'bending moments', 0, 1e-5 * sc * 6000)
    return s > 0
