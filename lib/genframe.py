"""Generators of plane-frame models and their translation to FrameFEM."""
from hypothesis import strategies as st

TRIPLES = [(3, 4), (4, 3), (5, 12), (12, 5), (8, 15), (20, 21)]
SECTIONS = [(1500.0, 1.0e6), (2848.0, 1.943e7), (5381.0, 8.356e7),
            (11253.0, 5.696e7), (730.0, 5.0e5), (8446.0, 2.313e8),
            (19780.0, 5.7e8), (4000.0, 1.0e7)]

NZ = st.integers(-50, 50).filter(bool)


@st.composite
def geometry(draw, max_nodes=6, exact=True):
    """Connected plane graph: node coordinates [mm] and edges."""
    n = draw(st.integers(2, max_nodes))
    if exact:
        a, b = draw(st.sampled_from(TRIPLES))
        s = draw(st.integers(20, 90)) * 20 // min(a, b)
        dx, dy = a * s, b * s
        # keep members within 0.5 .. 12 m
        cells = [(i, j) for i in range(3) for j in range(3)]
        idx = draw(st.permutations(cells))[:n]
        # make connected by neighbour steps: chain of steps from the first
        pos = [(0, 0)]
        edges = []
        steps = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (-1, 1),
                 (-1, -1), (2, 0), (0, 2)]
        for k in range(1, n):
            base = draw(st.integers(0, len(pos) - 1))
            st_ = draw(st.sampled_from(steps))
            q = (pos[base][0] + st_[0], pos[base][1] + st_[1])
            tries = 0
            while q in pos:
                tries += 1
                st_ = steps[(steps.index(st_) + 1) % len(steps)]
                q = (pos[base][0] + st_[0], pos[base][1] + st_[1])
                if tries > len(steps):
                    q = (max(p[0] for p in pos) + 1, pos[base][1])
                    if pos[base][0] != q[0] - 1:
                        base = max(range(len(pos)), key=lambda t: pos[t][0])
                        q = (pos[base][0] + 1, pos[base][1])
                    break
            pos.append(q)
            edges.append((base, k) if draw(st.booleans()) else (k, base))
        extra = draw(st.integers(0, 2))
        for i in range(n):
            for j in range(i + 1, n):
                if extra and (i, j) not in edges and (j, i) not in edges \
                        and max(abs(pos[i][0] - pos[j][0]),
                                abs(pos[i][1] - pos[j][1])) == 1:
                    edges.append((i, j))
                    extra -= 1
        nodes = [[float(p[0] * dx), float(p[1] * dy)] for p in pos]
    else:
        nodes = []
        edges = []
        for k in range(n):
            if k == 0:
                nodes.append([0.0, 0.0])
                continue
            base = draw(st.integers(0, k - 1))
            for _ in range(20):
                L = draw(st.integers(1000, 9000))
                ang = draw(st.integers(0, 359))
                import math
                p = [round(nodes[base][0] + L * math.cos(math.radians(ang)), 1),
                     round(nodes[base][1] + L * math.sin(math.radians(ang)), 1)]
                if all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 800
                       for q in nodes):
                    break
            nodes.append(p)
            edges.append((base, k) if draw(st.booleans()) else (k, base))
    return nodes, [list(e) for e in edges]


@st.composite
def frame(draw, max_nodes=6, exact=True, rods=True, releases=True, semi=True,
          cases=1, line=True, springs=True, load_f=True):
    nodes, edges = draw(geometry(max_nodes, exact))
    E = draw(st.sampled_from([210000.0, 210000.0, 70000.0, 11000.0]))
    elems = []
    base = draw(st.integers(0, len(SECTIONS) - 1))
    for e in edges:
        A, I = SECTIONS[draw(st.one_of(st.just(base), st.integers(
            0, len(SECTIONS) - 1)))]
        el = {'type': 'beam', 'n': e, 'E': E, 'A': A, 'I': I}
        k = draw(st.integers(0, 9))
        if releases and k in (1, 2, 3):
            el['rel'] = [[2], [5], [2, 5]][k - 1]
        elif releases and k == 4 and draw(st.booleans()):
            el['rel'] = draw(st.sampled_from(
                [[0], [3], [1], [4], [2, 3], [0, 5], [1, 5]]))
        elif semi and k in (5, 6, 7):
            k0 = E * I / 4000.0
            el['rot'] = [k0 * draw(st.sampled_from([0.01, 0.3, 1.0, 4.0, 50.0])),
                         k0 * draw(st.sampled_from([0.01, 0.3, 1.0, 4.0, 50.0]))]
            alike = [o['rot'] for o in elems if o.get('rot')]
            if alike and draw(st.booleans()):
                el['rot'] = list(alike[0])
        elems.append(el)
    n = len(nodes)
    if rods and n > 2:
        have = {tuple(sorted(e)) for e in edges}
        for _ in range(draw(st.integers(0, 2))):
            i = draw(st.integers(0, n - 1))
            j = draw(st.integers(0, n - 1))
            if i == j or tuple(sorted((i, j))) in have:
                continue
            have.add(tuple(sorted((i, j))))
            if springs and draw(st.integers(0, 3)) == 0:
                elems.append({'type': 'spring', 'n': [i, j], 'E': E, 'A': 1.0,
                              'k': float(draw(st.sampled_from(
                                  [100.0, 5000.0, 1e5])))})
            else:
                elems.append({'type': 'rod', 'n': [i, j], 'E': E,
                              'A': SECTIONS[draw(st.integers(0, 4))][0]})
    sup = []
    ns = draw(st.integers(1, min(3, n)))
    for q, node in enumerate(draw(st.permutations(range(n)))[:ns]):
        d = draw(st.sampled_from([[0, 1, 2], [0, 1, 2], [0, 1, 2], [0, 1, 2],
                                  [0, 1]] if q == 0 else
                                 [[0, 1, 2], [0, 1], [0, 1], [1], [0], [1, 2],
                                  [0, 2]]))
        sup.append({'sid': 1, 'node': node, 'dofs': d})
    loads = draw(load_list(nodes, elems, cases, line, load_f))
    m = {'nodes': nodes, 'elems': elems, 'supports': sup, 'loads': loads}
    # repair mechanisms: give up releases one at a time, then fix a support
    for _ in range(len(elems) + 1):
        if stable(m):
            break
        el = next((e for e in elems if e.pop('rel', None)), None)
        if el is None:
            sup[0]['dofs'] = [0, 1, 2]
            break
    return m


def stable(m, limit=1e6):
    from lib import refframe
    fr = refframe.Frame2D(m).factor(1)
    return fr is not None and fr[2] < limit


@st.composite
def load_list(draw, nodes, elems, cases=1, line=True, load_f=True,
              min_size=1, max_size=5):
    loads = []
    beams = [i for i, e in enumerate(elems) if e['type'] == 'beam']
    for _ in range(draw(st.integers(min_size, max_size))):
        case = draw(st.integers(1, cases)) + 1
        f = draw(st.sampled_from([1.0, 1.0, 1.0, 1.35, 0.5, -2.0, 0.0])) \
            if load_f else 1.0
        if line and beams and draw(st.booleans()):
            q = draw(NZ) / 2.0
            q2 = q if draw(st.booleans()) else draw(st.integers(-50, 50)) / 2.0
            q, q2 = draw(st.sampled_from([(q, q2)] * 4 + [(q2, q), (0.0, q),
                                                         (q, 0.0)]))
            loads.append({'type': 'line', 'case': case,
                          'el': draw(st.sampled_from(beams)), 'q': [q, q2],
                          'dir': draw(st.sampled_from(['x', 'y', 'y'])),
                          'coords': draw(st.sampled_from(['global', 'local'])),
                          'f': f})
        else:
            loads.append({'type': 'point', 'case': case,
                          'node': draw(st.integers(0, len(nodes) - 1)),
                          'v': [1000.0 * draw(NZ),
                                1000.0 * draw(st.integers(-50, 50)),
                                1e6 * draw(st.integers(-30, 30))], 'f': f})
    return loads


def build(model, section=None):
    """FrameFEM model of the generated structure (dofs not yet numbered)."""
    from metku.framefem import framefem as ff
    from metku.framefem.elements import EBBeam, EBSemiRigidBeam, Rod
    from metku.framefem.elements.springs import LinearSpring
    fem = ff.FrameFEM()
    rots = {}          # beams with equal joints get the same list
    for x, y in model['nodes']:
        fem.add_node(x, y)
    for e in model['elems']:
        a, b = (fem.nodes[i] for i in e['n'])
        mat = fem.add_material(e['E'], 0.3, 7850e-9)
        if e['type'] == 'spring':
            fem.add_element(LinearSpring(a, b, e['k']))
            continue
        sec = section(e) if section else ff.BeamSection(e['A'], e.get('I', 0.0))
        fem.add_section(sec)
        if e['type'] == 'rod':
            el = Rod(a, b, sec, mat)
        elif e.get('rot'):
            el = EBSemiRigidBeam(a, b, sec, mat, rots.setdefault(tuple(e['rot']), list(e['rot'])))
        else:
            el = EBBeam(a, b, sec, mat)
        fem.add_element(el)
        if e.get('rel'):
            fem.add_release(len(fem.elements) - 1, list(e['rel']))
    for s in model['supports']:
        fem.add_support(s['sid'], s['node'], list(s['dofs']))
    for l in model['loads']:
        add_load(fem, l)
    return fem


def add_load(fem, l):
    from metku.framefem import framefem as ff
    if l['type'] == 'point':
        load = ff.PointLoad(l['case'], fem.nodes[l['node']], list(l['v']),
                            l.get('f', 1.0))
    else:
        load = ff.LineLoad(l['case'], fem.elements[l['el']], [0.0, 1.0],
                           list(l['q']), l['dir'], coords=l['coords'])
        load.f = l.get('f', 1.0)
    fem.add_load(load)
    return load
