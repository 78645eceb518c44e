"""T01: trusses are generated with the shape and topology that was asked for."""
import itertools

from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, need

CHECK = Check('T01', 'at least three panels in a half, or a sloping top chord with unequal chord ends',
              ['roof trusses with K, N and KT topology', 'symmetry pairs', 'joints of braces and chords'])

RHS = [(60, 60, 4), (90, 90, 5), (120, 80, 6), (140, 140, 6), (160, 160, 8), (200, 120, 8), (100, 150, 5)]


def rhs(i):
    from metku.sections.steel.RHS import RHS as R
    return R(*RHS[i % len(RHS)])


@st.composite
def trusses(draw, dx=None, equal=False):
    L = draw(st.integers(10, 60)) * 250
    topo = draw(st.sampled_from(['K', 'N', 'KT']))
    a = draw(st.booleans()) if dx is None else dx
    d1 = draw(st.integers(1, 8)) * 0.025 if a else 0
    d2 = d1 if equal or draw(st.booleans()) else (draw(st.integers(1, 8)) * 0.025 if a else 0)
    slope = draw(st.sampled_from([0, 0, 2.5, 5, 10, 3.7]))
    return {'topo': topo, 'L': L, 'dx': [L * d1, L * d2], 'h': draw(st.integers(3, 16)) * 0.02 * L, 'slope': slope,
            'give': draw(st.sampled_from(['h1', 'h2', 'both'])), 'n': draw(st.integers(2, 6)),
            'up': draw(st.booleans()), 'ev': draw(st.booleans()), 'prof': [draw(st.integers(0, 6)) for _ in range(3)]}


def build(k, **kw):
    import math
    from metku.raami.raami_plane_truss import SlopedTruss
    rise = k['L'] * math.tan(math.radians(k['slope']))
    give = {'h1': {'h1': k['h'], 'slope': k['slope']}, 'h2': {'h2': k['h'] + rise, 'slope': k['slope']},
            'both': {'h1': k['h'], 'h2': k['h'] + rise}}[k['give']]
    T = SlopedTruss(L1=k['L'], L2=k['L'], dx1=k['dx'][0], dx2=k['dx'][1], **give)
    if 'beams' in k:
        T.braces_as_beams = k['beams']
    T.generate_topology(k['topo'], k['n'], first_diagonal_up=k['up'], edge_verticals=k['ev'],
                        top_chord_profile=rhs(k['prof'][0]), bottom_chord_profile=rhs(k['prof'][1]),
                        brace_profile=rhs(k['prof'][2]), **kw)
    return T, rise


def xy(node):
    return (float(node.x), float(node.y))


def near(a, b, tol=1e-6):
    return abs(a[0] - b[0]) < tol and abs(a[1] - b[1]) < tol


def idx(nodes):
    return {id(n): i for i, n in enumerate(nodes)}


@CHECK.clause('topology', trusses(), quick=1500, thorough=40000,
              rule='nodes on the outline, chords through the nodes in order, braces triangulate without crossing')
def topology(k):
    import numpy as np
    T, rise = build(k)
    L, h, (d1, d2) = k['L'], k['h'], k['dx']
    tol = 1e-6 * L
    top, bot = [xy(n) for n in T.top_nodes], [xy(n) for n in T.bottom_nodes]
    check_close(T.slope, k['slope'], 'slope', 1e-9, 1e-9)
    check_close(T.Hmid, h + rise, 'height at midspan', 1e-9)
    check_close(T.Hleft, h, 'height at the end', 1e-9)
    for a, b in zip(top, top[1:]):
        need(b[0] > a[0] + tol, lambda: f'top chord nodes are not in order: {top}')
    for a, b in zip(bot, bot[1:]):
        need(b[0] > a[0] + tol, lambda: f'bottom chord nodes are not in order: {bot}')
    for x, y in top:
        check_close(y, rise * (1 - abs(x - L) / L), f'top chord node at {x}', 0, tol)
    for x, y in bot:
        check_close(y, -h, f'bottom chord node at {x}', 0, tol)
    for got, want, what in ((top[0][0], 0, 'start of the top chord'), (top[-1][0], 2 * L, 'end of the top chord'),
                            (bot[0][0], d1, 'start of the bottom chord'), (bot[-1][0], 2 * L - d2, 'end of the bottom chord')):
        check_close(got, want, what, 0, tol)
    it, ib = idx(T.top_nodes), idx(T.bottom_nodes)
    need(any(abs(x - L) < tol for x, y in (top + bot if not rise else top)), 'no node at the ridge')
    need(len(T.nodes) == len(top) + len(bot) and all(id(n) in it or id(n) in ib for n in T.nodes), 'nodes of the frame')
    for mems, where, n, what in ((T.top_chord, it, len(top), 'top'), (T.bottom_chord, ib, len(bot), 'bottom')):
        pairs = sorted(sorted(where.get(id(e), -9) for e in m.nodes) for m in mems)
        need(pairs == [[i, i + 1] for i in range(n - 1)], lambda: f'{what} chord members {pairs}')
    br = []
    for m in T.braces.values():
        a, b = m.nodes
        if id(a) in ib:
            a, b = b, a
        need(id(a) in it and id(b) in ib, 'a brace does not join the chords')
        br.append((it[id(a)], ib[id(b)]))
    need(len(set(br)) == len(br), lambda: f'brace twice: {sorted(br)}')
    need(set(map(id, T.members.values())) == set(map(id, T.top_chord + T.bottom_chord + list(T.braces.values()))), 'members')
    br.sort()
    for (a, b), (c, d) in zip(br, br[1:]):
        need(d >= b, lambda: f'braces {(a, b)} and {(c, d)} cross')
        need((a == c) + (b == d) == 1 and abs(a - c) + abs(b - d) == 1, lambda: f'panel between braces {(a, b)} and {(c, d)} is no triangle')
    # every panel a triangle from the first brace to the last one; ends
    edge = d1 == 0
    if edge and k['ev']:
        need(br[0] == (0, 0) and br[-1] == (len(top) - 1, len(bot) - 1), 'edge verticals missing')
    elif edge:
        need(br[0] == ((1, 0) if k['up'] else (0, 1)), lambda: f'first brace {br[0]}')
        need(br[-1] == ((len(top) - 2, len(bot) - 1) if k['up'] else (len(top) - 1, len(bot) - 2)), lambda: f'last brace {br[-1]}')
    else:
        need(br[0] == (0, 0) and br[-1] == (len(top) - 1, len(bot) - 1), 'end diagonals missing')
    # kinds of braces
    incl = [(a, b) for a, b in br if abs(top[a][0] - bot[b][0]) > tol]
    vert = [(a, b) for a, b in br if abs(top[a][0] - bot[b][0]) <= tol]
    nv = 2 * (edge and k['ev'])
    panels = {'K': 0, 'N': 1, 'KT': 1}[k['topo']]
    if not panels:
        need(len(vert) == nv, lambda: f'verticals of a K truss: {vert}')
    elif k['topo'] == 'N':
        for i in range(1, len(top) - 1):
            need(sum(a == i for a, b in vert) == 1, lambda: f'N truss: no vertical at top node {i}')
        for a, b in incl:
            left = top[a][0] < bot[b][0]
            x = min(top[a][0], bot[b][0])
            want = (x < L - tol) if (not k['up'] or not edge) else (x >= L - tol)
            need(left == want, lambda: f'N truss: diagonal {(a, b)} inclines the wrong way')
    else:
        side = [b for a, b in vert] if not (edge and k['up']) else [a for a, b in vert]
        n = nv + (len(bot) - nv if edge and not k['up'] else 0)
        if edge and k['up']:
            mid = [b for b in range(1, len(bot) - 1)]
            need(all(any(q == b for _, q in vert) for b in mid), 'KT truss: verticals at the bottom nodes')
        else:
            mid = range(len(bot)) if not edge else range(1, len(bot) - 1)
            need(all(any(q == b for _, q in vert) for b in mid), 'KT truss: verticals at the bottom nodes')
    for m in T.braces.values():
        need(bool(m.vertical) == (abs(m.nodes[0].x - m.nodes[1].x) < tol), 'brace vertical flag')
    if k['topo'] == 'K' and (d1 or k['up']):
        # apexes of the bottom triangles lie in the middle, except at the ridge
        q = {}
        for a, b in incl:
            q.setdefault(a, []).append(b)
        for a, bs in q.items():
            if len(bs) == 2 and abs(top[a][0] - L) > tol:
                check_close(top[a][0], 0.5 * (bot[bs[0]][0] + bot[bs[1]][0]), f'K truss: top node {a}', 0, tol)
    # pin-jointed truss with the supports of the truss is statically determinate
    if not edge or k['ev']:
        m, j = len(T.members), len(T.nodes)
        need(m + 3 == 2 * j, lambda: f'{m} members, {j} joints')
        num = idx(T.nodes)
        A = np.zeros((2 * j, m + 3))
        for c, e in enumerate(T.members.values()):
            (xa, ya), (xb, yb) = xy(e.nodes[0]), xy(e.nodes[1])
            u = np.array([xb - xa, yb - ya]) / np.hypot(xb - xa, yb - ya)
            A[2 * num[id(e.nodes[0])]:, c][:2] = u
            A[2 * num[id(e.nodes[1])]:, c][:2] = -u
        T.generate_supports()
        sup = {}
        for s in T.supports.values():
            sup[id(s.node)] = sorted(s.dofs)
        first = T.top_nodes[0] if d1 else T.bottom_nodes[0]
        last = T.top_nodes[-1] if d2 else T.bottom_nodes[-1]
        need(sup == {id(first): [0, 1], id(last): [1]}, lambda: f'supports {sup}')
        for c, (node, d) in enumerate(((first, 0), (first, 1), (last, 1))):
            A[2 * num[id(node)] + d, m + c] = 1
        s = np.linalg.svd(A, compute_uv=False)
        need(s[-1] > 1e-6 * s[0], 'pin-jointed truss is a mechanism')
    # one more division
    T2, _ = build(dict(k, n=k['n'] + 1))
    add = len(T2.braces) - len(T.braces)
    need(add == {'K': 4, 'N': 4, 'KT': 6}[k['topo']], lambda: f'one more division adds {add} braces')
    # weights
    W = [sum(np.hypot(*(np.array(xy(m.nodes[0])) - xy(m.nodes[1]))) * m.cross_section.A * 7850e-9 for m in g)
         for g in (T.top_chord, T.bottom_chord, T.braces.values())]
    for got, want, what in zip(T.weight_detailed(), W, ('top chord', 'bottom chord', 'braces')):
        check_close(got, want, f'weight of the {what}', 1e-9)
    check_close(T.weight(), sum(W), 'weight', 1e-9)
    for g, p in ((T.top_chord, 0), (T.bottom_chord, 1), (T.braces.values(), 2)):
        need(all((m.cross_section.H, m.cross_section.B, m.cross_section.T) == RHS[k['prof'][p]] for m in g), 'profiles')
    # profile of a whole chord
    new = rhs(k['prof'][2])
    if k['n'] % 2:
        T.top_chord_profile, W[0] = new, W[0] / T.top_chord_profile.A * new.A
    else:
        T.bottom_chord_profile, W[1] = new, W[1] / T.bottom_chord_profile.A * new.A
    for g, p in ((T.top_chord, 2 if k['n'] % 2 else 0), (T.bottom_chord, 1 if k['n'] % 2 else 2)):
        need(all((m.cross_section.H, m.cross_section.B, m.cross_section.T) == RHS[k['prof'][p]] for m in g),
             'profiles of the chords after a change')
    check_close(T.weight(), sum(W), 'weight after a change', 1e-9)
    return k['n'] >= 3 or (k['slope'] > 0 and d1 != d2)


@CHECK.clause('joints', trusses(), quick=700, thorough=20000,
              rule='every node with braces has a joint of its kind, with its chords and braces, that the members know')
def joints(k):
    from metku.raami.raami_plane_truss import TubularKGapJoint, TubularKTGapJoint, TubularYJoint
    T, rise = build(k)
    T.generate_joints()
    tol = 1e-6 * k['L']
    at = {}
    for j in T.joints.values():
        need(id(j.node) not in at, 'two joints at a node')
        at[id(j.node)] = j
    for nodes, chord, side in ((T.top_nodes, T.top_chord, 'top'), (T.bottom_nodes, T.bottom_chord, 'bottom')):
        for n in nodes:
            br = [m for m in T.braces.values() if any(e is n for e in m.nodes)]
            ch = [m for m in chord if any(e is n for e in m.nodes)]
            if not br:
                need(id(n) not in at, 'joint without braces')
                continue
            if len(br) > 3:
                raise Skip('more than three braces at a node')
            need(id(n) in at, lambda: f'no joint at node {xy(n)}')
            j = at[id(n)]
            need(type(j) is {1: TubularYJoint, 2: TubularKGapJoint, 3: TubularKTGapJoint}[len(br)], lambda: f'{len(br)} braces: {type(j)}')
            need(set(map(id, j.braces)) == set(map(id, br)) and len(j.braces) == len(br), 'braces of the joint')
            need(set(map(id, j.chords)) == set(map(id, ch)), 'chords of the joint')
            need(j.chord == side, 'chord of the joint')
            for m in br:
                need((m.top_joint if side == 'top' else m.bottom_joint) is j, 'joint of the brace')
            for m in ch:
                need(any(q is j for q in m.joints), 'joint of the chord member')
            if len(br) == 2:
                left, right = sorted(br, key=lambda m: [e for e in m.nodes if e is not n][0].x)
                need(j.left_brace is left and j.right_brace is right, 'left and right brace')
                for m in ch:
                    o = [e for e in m.nodes if e is not n][0]
                    need((j.left_chord if o.x < n.x else j.right_chord) is m, 'left and right chord')
                need(j.ridge == (side == 'top' and abs(n.x - k['L']) < tol and rise > 0), 'ridge')
            if side == 'top' and abs(n.x - k['L']) < tol and len(br) > 1:
                need(T.ridge_joint is j, 'ridge joint')
    need(len(T.joints) == len(at) and all(key == j.joint_id for key, j in T.joints.items()), 'joint ids')
    return k['n'] >= 3 or k['dx'][0] != k['dx'][1]


@CHECK.clause('symmetry', trusses(equal=True), quick=500, thorough=15000,
              rule='a truss with equal ends is symmetric, and its nodes, members and joints find their pairs')
def symmetry(k):
    T, rise = build(k)
    T.generate_joints()
    T.symmetry()
    L, tol = k['L'], 1e-6 * k['L']

    def mirror(p):
        return (2 * L - p[0], p[1])
    for n in T.nodes:
        m = [o for o in T.nodes if near(xy(o), mirror(xy(n)), tol)]
        need(len(m) == 1, lambda: f'node {xy(n)} has {len(m)} mirror images')
        if m[0] is n:
            need(n.symmetry_node is None or n.symmetry_node is n, 'node on the axis')
        else:
            need(n.symmetry_node is m[0], lambda: f'symmetry node of {xy(n)}')
    for m in T.members.values():
        a, b = (mirror(xy(q)) for q in m.nodes)
        o = [q for q in T.members.values() if any(near(xy(q.nodes[i]), a, tol) and near(xy(q.nodes[1 - i]), b, tol) for i in (0, 1))]
        need(len(o) == 1, lambda: f'member {m.mem_id} has {len(o)} mirror images')
        if o[0] is m:
            need(m.symmetry_pair is None or m.symmetry_pair is m, 'member on the axis')
        else:
            need(m.symmetry_pair is o[0], lambda: f'symmetry pair of member {m.mem_id}')
    for j in T.joints.values():
        o = [q for q in T.joints.values() if near(xy(q.node), mirror(xy(j.node)), tol)]
        need(len(o) == 1, lambda: f'joint at {xy(j.node)} has {len(o)} mirror images')
        if o[0] is j:
            need(j.sym_joint is None or j.sym_joint is j, 'joint on the axis')
        else:
            need(j.sym_joint is o[0], lambda: f'symmetry joint of {xy(j.node)}')
    return k['n'] >= 3
