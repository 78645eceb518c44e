"""F04: linear buckling load factors and modes."""
import math

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from lib import genframe, refframe
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('F04', 'stable structure in which some member is compressed '
              '(positive load factor exists)',
              ['members with released or semi-rigid ends are excluded: their '
               'geometric stiffness is an approximation by design'])


def build(m, lf=1.0):
    fem = genframe.build(m)
    for l in fem.loads:
        l.f *= lf
    fem.add_loadcase(supp_id=1, load_id=2)
    fem.nodal_dofs()
    return fem


@CHECK.clause('reference', st.fixed_dictionaries({
    'model': genframe.frame(max_nodes=6, releases=False, semi=False,
                            springs=False),
    'scale': st.sampled_from([1.0, 1.0, 30.0, 0.02, 1e3]),
    'k': st.integers(1, 4)}), quick=500, thorough=30000,
    rule='k smallest load factors and their modes vs. dense eigen-solution')
def reference(case):
    m = case['model']
    for l in m['loads']:
        l['f'] = l['f'] * case['scale']
    ref = refframe.Frame2D(m)
    fr = ref.factor(1)
    if fr is None or fr[2] > 1e6:
        raise Skip('unstable')
    free, Kf, cond = fr
    k = min(case['k'], len(free) - 1)
    if k < 1:
        raise Skip('too few dofs')
    u = ref.solve(2, 1)
    R = ref.end_forces(u, 2)
    KG = ref.geometric(R)
    KGf = KG[np.ix_(free, free)]
    if np.abs(u).max() == 0:
        return False
    if -min(r[3] for r in R) < 1e-5 * max(
            max(np.abs(r[[0, 1, 3, 4]]).max(), np.abs(r[[2, 5]]).max() / i['L'])
            for r, i in zip(R, ref.info)):
        raise Skip('no compression')
    acting = max(max(np.abs(ref.local_load(e, i, 2)[[0, 1, 3, 4]]).max()
                     for e, i in zip(m['elems'], ref.info)), np.abs(ref.load(2)).max() / 1e3)
    if -min(r[3] for r in R) < 1e-7 * acting:
        raise Skip('no compression')      # self-balanced loads leave round-off only
    mu = scipy.linalg.eigh(-KGf, Kf, eigvals_only=True)
    size = max(max(np.abs(ref.local_load(e, i, 2)[[0, 1, 3, 4]]).max(), np.abs(r[[0, 3]]).max())
               * i['L'] ** 2 / (e['E'] * e['I'])
               for e, i, r in zip(m['elems'], ref.info, R) if e['type'] == 'beam')
    if mu[-1] <= 1e-7 * size:
        raise Skip('no compression')      # nothing but round-off buckles
    if mu[-1] <= 1e-9 * np.abs(mu).max():
        raise Skip('no compression')
    fem = build(m)
    w, modes, _ = fem.linear_buckling(lcase=2, k=k)
    w = np.asarray(w, dtype=float)
    need(w.shape == (k,), f'{w.shape} load factors instead of {k}')
    want = mu[::-1][:k]
    top = want[0]
    if top < 1e-3 * np.abs(mu).max():
        raise Skip('ill-separated')
    got = np.sort(1.0 / w)[::-1]
    check_close(1 / got[0], 1 / top, 'smallest load factor', 1e-4)
    check_vec(got, want, 'inverse load factors', 0, 1e-4 * top)
    # the mode stored in the nodes satisfies (K + a KG) v = 0
    for i in range(k):
        a = w[i]
        if not 1 / a > 1e-2 * top:
            continue
        V = np.zeros(ref.size)
        for j, nd in enumerate(fem.nodes):
            V[3 * j:3 * j + 3] = nd.v[i]
        need(np.abs(V).max() > 0, 'zero mode')
        fixed = ref.fixed(1)
        need(all(V[d] == 0 for d in fixed), 'mode moves a support')
        v = V[free]
        d = np.sqrt(np.diag(Kf))
        r = (Kf @ v + a * (KGf @ v)) / d
        s = np.linalg.norm((Kf @ v) / d)
        need(np.linalg.norm(r) <= 1e-3 * s, 'stored mode is not a buckling '
             f'mode of load factor {a}: residual {np.linalg.norm(r) / s}')
    return 'alpha<1' if 1 / top < 1 else 'alpha>1'


ENDS = {'pinned-pinned': ([0, 1], [0], 1.0), 'fixed-free': ([0, 1, 2], [], 2.0),
        'fixed-fixed': ([0, 1, 2], [0, 2], 0.5),
        'fixed-pinned': ([0, 1, 2], [0], 0.699155659)}


@CHECK.clause('euler', st.fixed_dictionaries({
    'ends': st.sampled_from(sorted(ENDS)), 'n': st.integers(4, 12),
    'L': st.integers(2000, 15000), 'I': st.integers(100, 100000),
    'rel': st.floats(0.001, 1000).map(lambda x: round(x, 4)),
    'horizontal': st.booleans(), 'rev': st.booleans()}),
    quick=200, thorough=8000, rule='Euler loads of columns, any load level')
def euler(case):
    from metku.framefem import framefem as ff
    from metku.framefem.elements import EBBeam
    n, L, I = case['n'], case['L'], case['I'] * 1e4
    a, b, K = ENDS[case['ends']]
    Pe = math.pi ** 2 * 210000.0 * I / (K * L) ** 2
    P = Pe / case['rel']
    fem = ff.FrameFEM()
    for i in range(n + 1):
        x = L * i / n
        fem.add_node(x, 0.0) if case['horizontal'] else fem.add_node(0.0, x)
    mat = fem.add_material(210000.0, 0.3, 7850e-9)
    for i in range(n):
        p, q = (i + 1, i) if case['rev'] else (i, i + 1)
        fem.add_element(EBBeam(fem.nodes[p], fem.nodes[q],
                               ff.BeamSection(1e4, I), mat))
    sw = {0: 1, 1: 0, 2: 2} if case['horizontal'] else {0: 0, 1: 1, 2: 2}
    fem.add_support(1, 0, [sw[d] for d in a])
    if b:
        fem.add_support(1, n, [sw[d] for d in b])
    v = [-P, 0, 0] if case['horizontal'] else [0, -P, 0]
    fem.add_load(ff.PointLoad(2, fem.nodes[-1], v, 1.0))
    fem.add_loadcase(1, 2)
    fem.nodal_dofs()
    w, _, _ = fem.linear_buckling(lcase=2, k=2)
    check_close(float(np.min(w)), case['rel'], 'critical load factor', 1e-2)
    return 'alpha<1' if case['rel'] < 1 else 'alpha>1'


@CHECK.clause('braced-column', st.fixed_dictionaries({
    'n': st.integers(6, 20), 'keep': st.integers(2, 5), 'L': st.just(3000),
    'off': st.integers(0, 17)}), quick=60, thorough=1500,
    rule='heavily restrained column: modes are stored at the right nodes')
def braced(case):
    n = case['n']
    nodes = [[0.0, 500.0 * i] for i in range(n + 1)]
    elems = [{'type': 'beam', 'n': [i, i + 1], 'E': 210000.0, 'A': 2848.0,
              'I': 1.943e7} for i in range(n)]
    free = {(case['off'] + i) % n for i in range(case['keep'])}
    sup = []
    for i in range(n + 1):
        d = [0] if i in free else [0, 2]
        if i == 0:
            d = [0, 1]
        sup.append({'sid': 1, 'node': i, 'dofs': d if i in free or i == 0
                    else [0, 2]})
    return reference.__wrapped__(case) if False else _braced(nodes, elems, sup)


def _braced(nodes, elems, sup):
    m = {'nodes': nodes, 'elems': elems, 'supports': sup,
         'loads': [{'type': 'point', 'case': 2, 'node': len(nodes) - 1,
                    'v': [0, -1e6, 0], 'f': 1.0}]}
    return reference({'model': m, 'scale': 1.0, 'k': 2})
