"""T02: trusses are analysed with the joint model asked for, and joints are designed with those forces."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.T01 import RHS, build, rhs, trusses
from lib import refframe
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('T02', 'eccentric joints, braces as beams, a stepwise load, several load cases or changed profiles',
              ['roof trusses with dx > 0 or edge verticals', 'members shorter than the load zones'])
E = 210e3
IDS = [0, 1, 2]


@st.composite
def cases(draw, models=('no_eccentricity', 'en1993', 'ecc_elements'), nl=3):
    model = draw(st.sampled_from(models))
    T = draw(trusses(dx=True if model != 'no_eccentricity' else None))
    if not T['dx'][0]:
        T['ev'] = True
    T['beams'] = draw(st.booleans())
    T['n'] = min(T['n'], 4)
    loads = []
    for lid in range(draw(st.integers(1, nl))):
        for chord in draw(st.sampled_from([['top'], ['top'], ['bottom'], ['top', 'bottom'], ['top', 'top']])):
            if chord == 'top' and draw(st.booleans()):
                nz = draw(st.integers(2, 4))
                zones = sorted(draw(st.lists(st.integers(1, 39), min_size=nz, max_size=nz, unique=True)))
                loads.append({'kind': 'pw', 'lid': lid, 'zones': [z / 20 for z in zones],
                              'q': [draw(st.integers(-20, 10)) * 0.5 for _ in range(nz + 1)]})
            else:
                loads.append({'kind': 'uni', 'chord': chord, 'lid': lid, 'q': draw(st.integers(-40, 20)) * 0.5 or -3.0})
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(['top', 'bottom', 'brace', 'yloc', 'xloc']), st.integers(0, 40), st.integers(0, 6)),
        st.tuples(st.just('dy'), st.integers(-4, 4))), max_size=3))
    return {'T': T, 'model': model, 'loads': loads, 'nel': [draw(st.integers(1, 4)), draw(st.integers(1, 2))],
            'pre': draw(st.lists(st.tuples(st.sampled_from(['yloc', 'xloc']), st.integers(0, 40), st.integers(0, 6)), max_size=3)),
            'ops': ops, 'update': draw(st.booleans()), 'comb': draw(st.sampled_from([None, None, 'ULS', 'SLS']))}


class Truss:
    done = False
    alias = {}      # nodes that replace those of the topology

    def __init__(self, k):
        self.k = k
        self.t = k['T']
        self.beams = self.t['beams']
        self.T, self.rise = build(self.t, nel_chord=k['nel'][0], nel_brace=k['nel'][1] if self.beams else 1)
        T = self.T
        T.generate_supports()
        T.generate_joints()
        self.kj = [j for j in T.joints.values() if type(j).__name__ == 'TubularKGapJoint']
        self.eo = {id(j): [0.0, 0.25 * j.h0] for j in self.kj}     # xloc, yloc
        self.shift = 0.0
        self.loads = []
        for i, l in enumerate(k['loads']):
            if l['kind'] == 'uni':
                T.generate_uniform_load(l['q'], l['chord'], l['lid'], 'live')
                self.loads.append(l)
            else:
                z = [x * self.t['L'] for x in l['zones']]
                dx = max(m.nodes[1].x - m.nodes[0].x for m in T.top_chord)
                keep = [0]
                for i in range(1, len(z)):      # zones at least as long as the members
                    if z[i] - z[keep[-1]] > dx * 1.001:
                        keep.append(i)
                if len(keep) < 2:
                    z, keep = [z[0] * 0.4, z[0] * 0.4 + 1.1 * dx], [0, 1]
                z, q = [z[i] for i in keep], [l['q'][0]] + [l['q'][i + 1] for i in keep]
                T.generate_piecewise_uniform_load(q, z, l['lid'], 'live')
                self.loads.append(dict(l, x=z, q=q))
        if k.get('comb'):
            self.combine(T, k['comb'])

    def combine(self, frame, kind):
        """Combination of all the load cases (live loads, the first one leading)."""
        from metku.raami.frame_loads import LoadCombination
        ids = list(dict.fromkeys(l['lid'] for l in self.loads))
        frame.add(LoadCombination(50, kind, [frame.load_cases[i] for i in ids]))
        for l in list(self.loads):
            f = (1.5 if kind == 'ULS' else 1.0) * (1.0 if l['lid'] == ids[0] else 0.7)
            self.loads.append(dict(l, lid=50, q=[f * q for q in l['q']] if type(l['q']) is list else f * l['q']))

    def apply(self, op):
        T = self.T
        if op[0] in ('top', 'bottom'):
            # copies: cross-sections belong to one member
            for m in T.top_chord if op[0] == 'top' else T.bottom_chord:
                m.cross_section = rhs(op[2])
        elif op[0] == 'brace':
            m = list(T.braces.values())
            m[op[1] % len(m)].cross_section = rhs(op[2])
        elif op[0] == 'dy':
            T.bottom_chord_dy(op[1] * 0.03 * self.t['h'])
            self.shift += op[1] * 0.03 * self.t['h']
        elif self.kj:
            j = self.kj[op[1] % len(self.kj)]
            v = (op[2] - 1) * 0.1 * j.h0
            if op[0] == 'yloc':
                j.yloc = v
                self.eo[id(j)][1] = v
            elif not j.ridge:
                j.xloc = v
                self.eo[id(j)][0] = v

    # ------------------------------------------------------------- geometry
    def joint_geometry(self):
        """Chord directions, intersection points of braces, chord face points."""
        T = self.T
        self.xp, self.xf, self.xc = {}, {}, {}
        self.dirs = {}
        k = self.kj
        for j in k:
            P = np.array(j.node.coords, dtype=float)
            c = sorted(j.chords, key=lambda m: min(e.x for e in m.nodes))
            us = []
            for m in c:
                a, b = sorted(m.nodes, key=lambda e: e.x)
                d = np.array([b.x - a.x, b.y - a.y])
                us.append(d / np.linalg.norm(d))
            out = np.array([0.0, 1.0]) if j.chord == 'top' else np.array([0.0, -1.0])
            n = [np.array([-u[1], u[0]]) * (1 if j.chord == 'top' else -1) for u in us]
            x, y = self.eo[id(j)]
            ridge = len(us) == 2 and abs(us[0] @ us[1]) < 1 - 1e-8
            self.xp[id(j)] = P + y * out if ridge else P + x * us[0] + y * n[0]
            self.dirs[id(j)] = (P, us, n, ridge)

    def ends(self, m):
        """Points where the axis of a brace meets the chords, top first."""
        r = []
        for j in (m.top_joint, m.bottom_joint):
            r.append(self.xp[id(j)] if id(j) in self.xp else np.array(j.node.coords, dtype=float))
        return r

    def face(self, j, m, side):
        P, us, n, ridge = self.dirs[id(j)]
        i = side if ridge else 0
        u, nn = us[i], n[i]
        a, b = self.ends(m)
        d = b - a
        # (a + s d - P) . nn = -h0/2
        s = (-0.5 * j.h0 - (a - P) @ nn) / (d @ nn)
        x = a + s * d
        return x, P + ((x - P) @ u) * u

    def place(self, n):
        return n.coords

    def model(self):
        """Reference model with the places of the results of every member."""
        T, k = self.T, self.k
        kind = k['model']
        self.joint_geometry()
        nodes, elems, loads, sup = [], [], [], []

        def node(x):
            nodes.append([float(x[0]), float(x[1])])
            return len(nodes) - 1

        def beam(a, b, s, hinge=(0, 0)):
            elems.append({'n': [a, b], 'type': 'beam', 'E': E, 'A': float(s.A), 'I': float(s.I[0]),
                          'rel': [f for f, h in zip((2, 5), hinge) if h]})
            return len(elems) - 1
        base, left, right = {}, {}, {}     # FEM node of a FrameNode, chord ends on its left and right
        bend = {}                          # (joint, brace): node
        kj = {id(j.node): j for j in self.kj}
        from metku.sections.steel.ISection import IPE
        stiff = IPE(500)
        gaps = {}
        for n in T.nodes:
            j = kj.get(id(n))
            if j is None or kind == 'no_eccentricity':
                base[id(n)] = left[id(n)] = right[id(n)] = node(self.place(n))
                continue
            P, us, nn, ridge = self.dirs[id(j)]
            if kind == 'en1993':
                xp = self.xp[id(j)]
                xc = P if ridge or j is T.ridge_joint else P + ((xp - P) @ us[0]) * us[0]
                base[id(n)] = left[id(n)] = right[id(n)] = a = node(xc)
                b = a
                if np.linalg.norm(xp - xc) > 1e-6:
                    b = node(xp)
                    beam(a, b, stiff)
                for m in j.braces:
                    bend[id(j), id(m)] = b
            else:
                ms = sorted(j.braces, key=lambda m: [e for e in m.nodes if e is not n][0].x)
                cs = []
                for side, m in enumerate(ms):
                    xf, xc = self.face(j, m, side)
                    f, c = node(xf), node(xc)
                    beam(f, c, stiff)
                    bend[id(j), id(m)] = f
                    cs.append(c)
                left[id(n)], right[id(n)] = cs
                u0 = us[0]
                if (np.array(nodes[cs[1]]) - nodes[cs[0]]) @ u0 < 5:
                    raise Skip('no gap between the braces')
                chord = j.chords[0].cross_section
                if ridge:
                    base[id(n)] = node(P)
                    g = [beam(cs[0], base[id(n)], chord), beam(base[id(n)], cs[1], chord)]
                else:
                    g = [beam(cs[0], cs[1], chord)]
                gaps[id(j)] = g
        spans = {}
        for m in T.top_chord + T.bottom_chord:
            a, b = sorted(m.nodes, key=lambda e: e.x)
            ia, ib = right[id(a)], left[id(b)]
            nel = k['nel'][0]
            if kind == 'ecc_elements':
                xa, xb = np.array(nodes[ia]), np.array(nodes[ib])
            else:
                xa, xb = np.array(a.coords, dtype=float), np.array(b.coords, dtype=float)
            if (xb - xa)[0] < 100:
                raise Skip('joints overlap')
            ids = [ia] + [node(xa + (xb - xa) * q / nel) for q in range(1, nel)] + [ib]
            for p, q in zip(ids, ids[1:]):
                if nodes[q][0] - nodes[p][0] < 20:
                    raise Skip('joints overlap')
            spans[id(m)] = (ids, [beam(p, q, m.cross_section) for p, q in zip(ids, ids[1:])])
        for m in T.braces.values():
            e = []
            for j in (m.top_joint, m.bottom_joint):
                key = (id(j), id(m))
                e.append(bend[key] if key in bend else base[self.alias.get(id(j.node), id(j.node))])
            if kind == 'no_eccentricity':
                e = [base[id(q)] for q in m.nodes]
            if not self.beams:
                elems.append({'n': e, 'type': 'rod', 'E': E, 'A': float(m.cross_section.A), 'I': 0.0})
                spans[id(m)] = (e, [len(elems) - 1])
                continue
            nel = k['nel'][1]
            xa, xb = (np.array(nodes[i]) for i in e)
            ids = [e[0]] + [node(xa + (xb - xa) * q / nel) for q in range(1, nel)] + [e[1]]
            n = len(ids) - 1
            spans[id(m)] = (ids, [beam(ids[q], ids[q + 1], m.cross_section, (q == 0, q == n - 1)) for q in range(n)])
        # loads
        total = {}
        for l in self.loads:
            mems = T.top_chord if l['kind'] == 'pw' or l['chord'] == 'top' else T.bottom_chord

            def at(x):
                return l['q'][sum(x > z for z in l['x'])] if l['kind'] == 'pw' else l['q']

            def seg(x1, x2):
                a, b = at(x1 + 1e-6), at(x2 - 1e-6)
                return a if abs(a) >= abs(b) else b
            for m in mems:
                for e in spans[id(m)][1]:
                    x1, x2 = (nodes[i][0] for i in elems[e]['n'])
                    q = seg(x1, x2)
                    loads.append({'type': 'line', 'el': e, 'q': [q, q], 'dir': 'y', 'coords': 'global', 'case': l['lid']})
            for j in self.kj:
                if id(j) in gaps and len(j.chords) == 2 and any(j.chords[0] is m for m in mems):
                    v = total.setdefault((id(j), l['lid']), [0.0, 0.0])
                    for i, m in enumerate(sorted(j.chords, key=lambda m: min(e.x for e in m.nodes))):
                        a, b = sorted(e.x for e in m.nodes)
                        v[i] += at(a + 1e-6 if i else b - 1e-6)
        for (j, lid), v in total.items():
            if not self.dirs[j][3]:
                v = [v[0] if abs(v[0]) >= abs(v[1]) - 1e-9 else v[1]]
            for e, q in zip(gaps[j], v):
                loads.append({'type': 'line', 'el': e, 'q': [q, q], 'dir': 'y', 'coords': 'global', 'case': lid})
        d1, d2 = self.t['dx']
        first = T.top_nodes[0] if d1 else T.bottom_nodes[0]
        last = T.top_nodes[-1] if d2 else T.bottom_nodes[-1]
        sup = [{'node': base[id(first)], 'dofs': [0, 1], 'sid': 1}, {'node': base[id(last)], 'dofs': [1], 'sid': 1}]
        self.spans, self.gaps, self.base = spans, gaps, base
        return {'nodes': nodes, 'elems': elems, 'loads': loads, 'supports': sup}

    # ------------------------------------------------------------- analysis
    def analyse(self, regenerate):
        T = self.T
        if self.done and self.k.get('update') and self.k['model'] == 'ecc_elements' \
                and all(l['kind'] == 'uni' for l in self.loads):     # steps of loads stay on the elements they were put on
            T.update_fem_joint_nodes()
        elif regenerate or self.k['model'] != 'no_eccentricity':
            T.clear_fem()
            T.generate_fem(self.k['model'])
        self.done = True
        T.structural_analysis('all', 'REM')

    def check(self, what):
        T = self.T
        mod = self.model()
        ref = refframe.Frame2D(mod)
        ff = ref.factor(1)
        if ff is None or ff[2] > 1e8:
            raise Skip('nearly unstable')
        rtol = max(1e-4, 1e-12 * ff[2])   # the library rounds some coordinates
        self.ref, self.R = ref, {}
        for lid in sorted({l['lid'] for l in self.loads}):
            u = ref.solve(lid, 1)
            R = self.R[lid] = ref.end_forces(u, lid)
            Lc = max(i['L'] for i in ref.info)
            Fs = max(max(np.abs(r[[0, 1, 3, 4]]).max() for r in R), 1.0)
            Ms = max(max(np.abs(r[[2, 5]]).max() for r in R), 1e3)
            Fs = max(Fs, Ms / Lc)
            Ms = max(Ms, Fs * Lc)
            ds = np.abs(u[:3 * len(mod['nodes'])].reshape(-1, 3)[:, :2]).max()
            for name, m in T.members.items():
                ids, els = self.spans[id(m)]
                w = f'{what}: case {lid}, member {name}: '
                if mod['elems'][els[0]]['type'] == 'rod':
                    N, V, My = [R[els[0]][3]] * 2, [0, 0], [0, 0]
                else:
                    N = [-R[q][0] for q in els] + [R[els[-1]][3]]
                    V = [R[q][1] for q in els] + [-R[els[-1]][4]]
                    My = [-R[q][2] for q in els] + [R[els[-1]][5]]
                f = m.nodal_forces[lid]
                check_vec(f['N'], N, w + 'axial force', 0, rtol * Fs * 4)
                check_vec(f['Vz'], V, w + 'shear force', 0, rtol * Fs * 4)
                check_vec(f['My'], My, w + 'bending moment', 0, rtol * Ms * 4)
                need(any(m.NEd[lid] == v for v in f['N']) and abs(m.NEd[lid]) == max(map(abs, f['N'])), w + 'NEd')
                d = m.nodal_displacements[lid]
                a, b = (np.array(e.coords, dtype=float) for e in m.nodes)
                # from the start of the member
                for q, i in enumerate(sorted(ids, key=lambda i: (np.array(mod['nodes'][i]) - a) @ (b - a))):
                    check_vec(d[q][:2], u[3 * i:3 * i + 2], w + 'displacement', 0, rtol * ds + 1e-9)
            for j in self.kj:
                if id(j) in self.gaps:
                    V = max(abs(v) for g in self.gaps[id(j)] for v in (R[g][1], R[g][4]))
                    check_close(j.V0gap(lid), V, f'{what}: case {lid}: shear force in the gap', 0, rtol * Fs * 4)


def nontrivial(k):
    return k['model'] != 'no_eccentricity' or k['T']['beams'] or len(k['loads']) > 1 or bool(k['ops'])


@CHECK.clause('analysis', cases(), quick=400, thorough=12000,
              rule='forces, displacements and gap shear of every load case, after every change of profiles and joint geometry')
def analysis(k):
    F = Truss(k)
    for op in k['pre']:
        F.apply(op)
    F.analyse(True)
    F.check('first')
    for op in k['ops']:
        F.apply(op)
        F.analyse(op[0] not in ('top', 'bottom', 'brace'))
        F.check(op[0])
    return nontrivial(k)


# ------------------------------------------------------------------- joints
def kn(c, beta, N0):
    n = -N0 / c.A / c.fy
    return min(1.0, 1.3 - 0.4 * n / beta) if n > 0 else 1.0


def angle(a, b, u):
    d = (b - a) / np.linalg.norm(b - a)
    return math.acos(min(1.0, abs(float(d @ u))))


def y_joint(F, j, lid):
    c, m = j.chords[0].cross_section, j.braces[0]
    s = m.cross_section
    N, N0 = m.NEd[lid], j.N0
    need(any(N0 == q.NEd[lid] for q in j.chords), 'chord force of a Y joint')
    a, b = F.ends(m)
    q = j.chords[0]
    u = np.array([q.nodes[1].x - q.nodes[0].x, q.nodes[1].y - q.nodes[0].y])
    sn = math.sin(angle(a, b, u / np.linalg.norm(u)))
    beta, fy0, t0, b0, h0 = s.B / c.B, c.fy, c.T, c.B, c.H
    k_n, r = kn(c, beta, N0), 1.0 if fy0 <= 355 else 0.9 if fy0 <= 460 else 0.8

    def cff(x):
        x = min(x, 0.99) if x >= 1 else x
        return r * k_n * fy0 * t0 ** 2 / (1 - x) / sn * (2 * s.H / b0 / sn + 4 * math.sqrt(1 - x))
    fb = fy0
    if N < 0:
        lam = 3.46 * (h0 / t0 - 2) * math.sqrt(1 / sn) / (math.pi * math.sqrt(210e3 / fy0))
        phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam ** 2)
        fb *= min(1, 1 / (phi + math.sqrt(phi ** 2 - lam ** 2)))
    csw = r * k_n * fb * t0 / sn * (2 * s.H / sn + 10 * t0)
    bf = r * s.fy * s.T * (2 * s.H - 4 * s.T + 2 * min(1, 10 * t0 / b0 * fy0 * t0 / s.fy / s.T) * s.B)
    ps = r * fy0 * t0 / math.sqrt(3) / sn * (2 * s.H / sn + 2 * min(1, 10 * t0 / b0) * s.B)
    if beta < 0.85:
        R = cff(beta)
    else:
        R = min(cff(0.85) + (beta - 0.85) / 0.15 * (csw - cff(0.85)), bf)
        if beta <= 1 - 2 * t0 / b0:
            R = min(R, ps)
    return [abs(N) / R]


def k_joint(F, j, lid):
    P, us, n, ridge = F.dirs[id(j)]
    c = j.chords[0].cross_section
    q = j.chords[0]
    u = np.array([q.nodes[1].x - q.nodes[0].x, q.nodes[1].y - q.nodes[0].y])
    u = u / np.linalg.norm(u)
    N0 = j.N0
    need(any(N0 == m.NEd[lid] for m in j.chords), 'chord force of a K joint')
    S = [m.cross_section for m in j.braces]
    NEd = np.array([m.NEd[lid] for m in j.braces])
    ang = [angle(*F.ends(m), u) for m in j.braces]
    sn = np.sin(ang)
    b, h, t, fy = (np.array([getattr(s, x) for s in S], dtype=float) for x in ('B', 'H', 'T', 'fy'))
    fy0, t0, b0, h0 = c.fy, c.T, c.B, c.H
    if not ridge:
        # along the chord face, between the brace walls
        xs = sorted(((F.face(j, m, 0)[0] - P) @ u, s.H / 2 / x) for m, s, x in zip(j.braces, S, sn))
        gap = xs[1][0] - xs[1][1] - xs[0][0] - xs[0][1]
        check_close(j.gap, gap, 'gap', 1e-7, 1e-6)
    else:
        gap = j.gap
    r = 1.0 if fy0 <= 355 else 0.9 if fy0 <= 460 else 0.8
    beta, g = (sum(b) + sum(h)) / 4 / b0, b0 / 2 / t0
    k_n = kn(c, beta, N0)
    cff = r * 8.9 * k_n * fy0 * t0 ** 2 * math.sqrt(g) * beta / sn
    Av = (2 * h0 + b0 / math.sqrt(1 + 4 * gap ** 2 / 3 / t0 ** 2)) * t0
    css = r * fy0 * Av / math.sqrt(3) / sn
    bf = r * fy * t * (2 * h - 4 * t + b + np.minimum(10 * t0 / b0 * fy0 * t0 / fy / t, 1) * b)
    ps = r * fy0 * t0 / math.sqrt(3) / sn * (2 * h / sn + b + min(10 * t0 / b0, 1) * b)
    lim = np.minimum(np.minimum(cff, css), bf)
    if beta <= 1 - 1 / g:
        lim = np.minimum(lim, ps)
    V, VRd = j.V0gap(lid), c.A * h0 / (b0 + h0) * fy0 / math.sqrt(3)
    if V > VRd * 0.999:
        return list(abs(NEd) / lim)
    N0Rd = r * fy0 * (c.A - Av + Av * math.sqrt(1 - (V / VRd) ** 2))
    if abs(N0Rd) < 1e-3 * c.A * fy0:
        return list(abs(NEd) / lim)
    return list(abs(NEd) / lim) + [abs(N0) / abs(N0Rd)]


@CHECK.clause('joints', cases(models=('ecc_elements',)), quick=250, thorough=8000,
              rule='utilisation of Y and K joints from Tables 7.10 to 7.12 with the forces and geometry of the truss')
def joints(k):
    F = Truss(k)
    for op in k['pre']:
        F.apply(op)
    F.analyse(True)
    F.check('first')
    seen = set()
    for lid in sorted({l['lid'] for l in F.loads}):
        for i, j in F.T.joints.items():
            kind = type(j).__name__
            if kind == 'TubularKTGapJoint':
                continue
            w = f'case {lid}, joint {i} ({kind}): '
            if kind == 'TubularKGapJoint':
                r = j.design(lid, verb=False)
                want = k_joint(F, j, lid)
            else:
                r = [j.design(lid)]
                want = y_joint(F, j, lid)
            r = [float(v) for v in r]
            check_vec(r[:len(want)], want, w + 'utilisation', 1e-7, 1e-12)
            check_close(j.utilization[lid], max(r), w + 'governing utilisation', 1e-12)
            seen.add(kind)
    for i, j in F.T.joints.items():
        need(type(j).__name__ == 'TubularKTGapJoint' or set(j.utilization) == {l['lid'] for l in F.loads},
             'utilisation of every load case')
    return bool(seen)


# --------------------------------------------------------------- Vierendeel
@st.composite
def vierendeels(draw):
    prof = st.integers(0, 6)
    loads = []
    for lid in range(draw(st.integers(1, 3))):
        for _ in range(draw(st.integers(1, 2))):
            q = draw(st.integers(-40, 20)) * 0.5 or -3.0
            loads.append({'lid': lid, 'chord': draw(st.sampled_from(['top', 'bottom'])), 'q': q,
                          'p': draw(st.one_of(st.none(), st.integers(-60, 30)))})
    return {'L': draw(st.integers(8, 60)) * 500, 'h': draw(st.integers(4, 24)) * 125, 'n': draw(st.integers(2, 8)),
            'org': draw(st.sampled_from([[0, 0], [0, 0], [1500, 4000]])),
            'nel': [draw(st.integers(1, 4)), draw(st.integers(1, 4))], 'prof': [draw(prof) for _ in range(3)], 'loads': loads,
            'model': draw(st.sampled_from(['no_eccentricity', 'ecc_elements'])), 'joints': draw(st.booleans()),
            'sym': draw(st.booleans()), 'comb': draw(st.sampled_from([None, None, 'ULS', 'SLS'])),
            'ops': draw(st.lists(st.tuples(st.sampled_from(['top', 'bottom', 'brace', 'one']), st.integers(0, 40), prof), max_size=2))}


class Vierendeel(Truss):
    beams = True

    def __init__(self, k):
        import contextlib
        import io
        from metku.raami.raami_vierendeel import VierendeelTruss
        self.k, self.kj, self.t, self.shift, self.eo = k, [], {}, 0, {}
        with contextlib.redirect_stdout(io.StringIO()):
            self.T = T = VierendeelTruss(origin=tuple(k['org']), span=k['L'], height=k['h'], panels=k['n'])
            T.generate_topology(*(rhs(i) for i in k['prof']), nel_chord=k['nel'][0], nel_brace=k['nel'][1])
        T.generate_supports()
        if k['joints'] or k['model'] == 'ecc_elements':
            T.generate_joints()
        if k['sym']:
            T.symmetry()
        self.loads = []
        for l in k['loads']:
            self.loads.append(dict(l, kind='uni'))
            if l['p'] is None:
                T.generate_uniform_load(l['q'], l['chord'], l['lid'], 'live')
            else:
                T.generate_chord_point_load([1e3 * l['q'], 1e3 * l['p']], l['chord'], l['lid'], 'live')
        if k['comb']:
            n = len(self.loads)
            self.combine(T, k['comb'])
            for l in self.loads[n:]:
                f = (1.5 if k['comb'] == 'ULS' else 1.0) * (1.0 if l['lid0'] == self.loads[0]['lid'] else 0.7)
                l['p'] = None if l['p'] is None else l['p'] * f

    def combine(self, T, kind):
        for l in self.loads:
            l['lid0'] = l['lid']
        Truss.combine(self, T, kind)

    def model(self):
        T, k = self.T, self.k
        dx, (x0, y0) = k['L'] / k['n'], k['org']
        self.xp, self.dirs, self.gaps = {}, {}, {}
        nodes = [[x0 + i * dx, y0 + y] for y in (k['h'], 0) for i in range(k['n'] + 1)]
        elems, loads, spans = [], [], {}
        n = k['n'] + 1

        def member(m, a, b, nel):
            xa, xb = np.array(nodes[a]), np.array(nodes[b])
            ids = [a]
            for q in range(1, nel):
                nodes.append(list(xa + (xb - xa) * q / nel))
                ids.append(len(nodes) - 1)
            ids.append(b)
            s = m.cross_section
            els = []
            for i, j in zip(ids, ids[1:]):
                elems.append({'n': [i, j], 'type': 'beam', 'E': E, 'A': float(s.A), 'I': float(s.I[0]), 'rel': []})
                els.append(len(elems) - 1)
            spans[id(m)] = (ids, els)
        for i in range(n - 1):
            member(T.top_chord[i], i, i + 1, k['nel'][0])
            member(T.bottom_chord[i], n + i, n + i + 1, k['nel'][0])
        for i, m in enumerate(T.braces.values()):
            member(m, i, n + i, k['nel'][1])
        for l in self.loads:
            top = l['chord'] == 'top'
            if l['p'] is None:
                for m in T.top_chord if top else T.bottom_chord:
                    for e in spans[id(m)][1]:
                        loads.append({'type': 'line', 'el': e, 'q': [l['q']] * 2, 'dir': 'y', 'coords': 'global', 'case': l['lid']})
            else:
                for i in range(n):
                    p = l['p'] if 0 < i < n - 1 else l['q'] if top else 0
                    loads.append({'type': 'point', 'node': i if top else n + i, 'v': [0.0, 1e3 * p, 0.0], 'case': l['lid']})
        self.spans = spans
        sup = [{'node': n, 'dofs': [0, 1], 'sid': 1}, {'node': 2 * n - 1, 'dofs': [1], 'sid': 1}]
        return {'nodes': nodes, 'elems': elems, 'loads': loads, 'supports': sup}

    def apply(self, op):
        if op[0] == 'one':
            m = list(self.T.members.values())
            m[op[1] % len(m)].cross_section = rhs(op[2])
        elif op[0] == 'brace':
            for m in self.T.braces.values():
                m.cross_section = rhs(op[2])
        else:
            Truss.apply(self, op)


@CHECK.clause('vierendeel', vierendeels(), quick=150, thorough=6000,
              rule='Vierendeel trusses: weight, forces, displacements and joints, after changes of profiles')
def vierendeel(k):
    F = Vierendeel(k)
    F.analyse(True)
    for op in [None] + k['ops']:
        if op:
            F.apply(op)
            F.analyse(False)
        F.check(op[0] if op else 'first')
        T = F.T
        parts = [sum(m.cross_section.A * 7850e-9 * m.length() for m in ms)
                 for ms in (T.top_chord, T.bottom_chord, T.braces.values())]
        check_vec(T.weight_detailed(), parts, 'weights', 1e-6)
        check_close(T.weight(), sum(parts), 'weight', 1e-6)
        for lid in sorted({l['lid'] for l in F.loads}):
            for i, j in T.joints.items():
                r, want = float(j.design(lid)), y_joint(F, j, lid)[0]
                check_close(r, want, f'case {lid}, joint {i}: utilisation', 1e-7, 1e-12)
    return bool(k['ops']) or len(k['loads']) > 1


# ------------------------------------------------- eccentricity of the joints
@st.composite
def eccentric(draw):
    T = draw(trusses(dx=True, equal=True))
    if not T['dx'][0]:
        T['ev'] = True
    solve = draw(st.integers(0, 3)) == 0
    T['n'] = min(T['n'], 3 if solve else 5)
    T['beams'] = False
    return {'T': T, 'min_gap': draw(st.sampled_from([20, 20, 5, 40])), 'solve': solve,
            'x': [draw(st.integers(0, 20)) / 20 for _ in range(40)], 'model': 'en1993', 'nel': [1, 1], 'loads': []}


def gap_of(F, j):
    P, us, n, ridge = F.dirs[id(j)]
    if len(j.braces) != 2:
        return None
    xs = []
    for m in j.braces:
        far = [e for e in m.nodes if e is not j.node][0]
        left = far.x < j.node.x
        i = (0 if left else 1) if ridge else 0
        s = math.sin(angle(*F.ends(m), us[i]))
        f = F.face(j, m, i)[0]
        xs.append((left, (f - P), us[i], m.cross_section.H / 2 / s))
    if ridge:
        return None
    a, b = sorted(((p @ u, w) for _, p, u, w in xs))
    return b[0] - b[1] - a[0] - a[1]


@CHECK.clause('eccentricity', eccentric(), quick=100, thorough=6000,
              rule='optimisation of the joint eccentricities: gaps, verticals and mirrored joints at any values of the variables, and at the optimum')
def eccentricity(k):
    import contextlib
    import io
    from metku.raami.raami_truss_opt import minimize_eccentricity
    F = Truss(k)
    T = F.T
    with contextlib.redirect_stdout(io.StringIO()):
        T.symmetry()
        T.determine_symmetry_joints()
        Q, x0 = minimize_eccentricity(T, k['min_gap'])
    half = [j for j in F.kj if j.node.x <= 0.5 * T.span]
    need(len(half) > 0, 'joints')
    var = {(id(v.target['objects'][0]), v.target['property']): i for i, v in enumerate(Q.vars)}
    for j in half:
        need((id(j), 'yloc') in var, 'the eccentricity of every K joint is a variable')
        need(j.ridge or j is T.ridge_joint or (id(j), 'xloc') in var, 'the position of every K joint is a variable')
    limits = {}
    for j in half:
        b0 = j.chords[0].cross_section.B
        beta = sum(m.cross_section.B + m.cross_section.H for m in j.braces) / (2 * len(j.braces)) / b0
        t = sum(m.cross_section.T for m in j.braces)
        limits[id(j)] = max(0.5 * b0 * (1 - beta), k['min_gap'], t), 1.5 * b0 * (1 - beta)

    def check(x, w):
        mirror = {}
        for j in half:
            y = x[var[id(j), 'yloc']]
            xl = x[var[id(j), 'xloc']] if (id(j), 'xloc') in var else 0.0
            F.eo[id(j)] = [xl, y]
            for o in F.kj:
                if o is not j and abs(o.node.x + j.node.x - T.span) < 1e-3 and o.chord == j.chord:
                    F.eo[id(o)] = [-xl, y]
                    mirror[id(j)] = o
        F.joint_geometry()
        for j in F.kj:
            check_vec(np.array(j.xp.coords), F.xp[id(j)], w + 'intersection point of braces', 1e-9, 1e-6)
            g = gap_of(F, j)
            if g is not None:
                check_close(j.calc_gap(), g, w + 'gap', 1e-7, 1e-6)
        values = [float(c(x)) for c in Q.cons]
        for j in half:
            g = j.gap
            lo, hi = limits[id(j)]
            for v in (g - hi, lo - g):
                need(min(abs(v - q) for q in values) < 1e-6, lambda: f'{w}gap of joint at {j.node}: no constraint has the value {v}')
        check_close(Q.obj(x), sum(x[var[id(j), 'yloc']] ** 2 for j in half) / 100, w + 'objective', 1e-9, 1e-12)
        for m in T.braces.values():
            if m.vertical:
                off = [p[0] for p in F.ends(m)]
                d = off[0] - off[1]
                if abs(d) > 1e-6 and m.nodes[0].x <= 0.5 * T.span + 1e-6:
                    need(min((abs(abs(d) - abs(q)) for q in values), default=1e9) < 1e-6,
                         lambda: f'{w}vertical {m} leans by {d}: no constraint has that value')
                if w == 'optimum: ':
                    need(abs(d) < 1e-3, lambda: f'{w}vertical {m} leans by {d}')
        return values
    lb = np.array([v.lb for v in Q.vars])
    ub = np.array([v.ub for v in Q.vars])
    x = lb + (ub - lb) * (0.5 + 0.3 * (np.array((k['x'] * 3)[:len(lb)]) - 0.5))
    Q.substitute_variables(x)
    check(x, '')
    if k['solve']:
        from metku.optimization.solvers.slsqp import SLSQP
        with contextlib.redirect_stdout(io.StringIO()):
            f, xs = SLSQP().solve(Q, x0=x0, maxiter=15, verb=False)
        Q.substitute_variables(xs)
        if max(float(c(xs)) for c in Q.cons if c.type == '<') < 1e-3 and max((abs(float(c(xs))) for c in Q.cons if c.type == '='), default=0) < 1e-3:
            check(xs, 'optimum: ')
    return len(half) > 2
