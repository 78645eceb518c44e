"""T03: portal frames of two columns and a roof truss are analysed as one structure with the joints at the column faces."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from checks.T01 import RHS, rhs
from checks.T02 import E, Truss
from lib import refframe
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('T03', 'portal frames with loads on the truss and the columns, or with profiles changed after an analysis',
              ['symmetric frames; the joints between the truss and the columns have eccentricity elements',
               'the bottom chord may reach the columns only when the first diagonal goes up',
               'loads act on the chords between their joints (no load on the pieces between a column face and a Y joint)'])


def column(i):
    from metku.sections.steel.ISection import HEA, HEB
    from metku.sections.steel.RHS import RHS as R, SHS
    return [lambda: SHS(250, 8), lambda: SHS(180, 6), lambda: R(300, 200, 10), lambda: HEA(260), lambda: HEB(300), lambda: HEA(400)][i % 6]()


@st.composite
def cases(draw):
    L = draw(st.integers(32, 72)) * 250
    low = draw(st.booleans())
    h = draw(st.integers(5, 10)) * 0.02 * L
    topo = draw(st.sampled_from(['K', 'N', 'KT']))
    k = {'L': L, 'H': draw(st.integers(4, 12)) * 1000 + h, 'topo': topo,
         'dx': 0 if low else draw(st.integers(2, 8)) * 0.025 * L, 'h': h,
         'slope': draw(st.sampled_from([0, 0, 2.5, 5, 10, 3.7])), 'give': draw(st.sampled_from(['h1', 'h2', 'both'])),
         'n': draw(st.integers(2, 4)), 'up': True if low else draw(st.booleans()),
         'nel': [draw(st.integers(1, 4)), draw(st.integers(1, 2))],
         'col': draw(st.integers(0, 5)), 'cnel': [draw(st.integers(1, 4)), draw(st.integers(1, 2))],
         'ynode': draw(st.booleans()),
         # with hinges at the top of the columns and at the bases the frame is a mechanism
         'base': draw(st.sampled_from(['fixed', 'pinned', 'hinged'] if low else ['fixed'])),
         'prof': [draw(st.integers(0, 6)) for _ in range(3)]}
    loads = []
    for lid in range(draw(st.integers(1, 3))):
        for part in draw(st.lists(st.sampled_from(['top', 'bottom', 'left', 'right']), min_size=1, max_size=3, unique=True)):
            loads.append({'part': part, 'lid': lid, 'q': draw(st.integers(-40, 30)) * 0.5 or -3.0})
            if part in ('left', 'right') and draw(st.booleans()):
                loads[-1]['q2'] = draw(st.integers(-40, 30)) * 0.5      # trapezoidal
    k['loads'] = sorted(loads, key=lambda l: l['part'] in ('left', 'right')) if draw(st.booleans()) else loads
    k['update'] = draw(st.booleans())
    k['comb'] = draw(st.sampled_from([None, None, 'ULS', 'SLS']))
    k['ops'] = draw(st.lists(st.tuples(st.sampled_from(['top', 'bottom', 'brace', 'column', 'column']), st.integers(0, 40),
                                       st.integers(0, 6)), max_size=2))
    return k


class Portal(Truss):
    def __init__(self, k):
        from metku.raami.raami_portal_truss import PortalTruss
        rise = k['L'] * math.tan(math.radians(k['slope']))
        give = {'h1': {'h1': k['h'], 'slope': k['slope']}, 'h2': {'h2': k['h'] + rise, 'slope': k['slope']},
                'both': {'h1': k['h'], 'h2': k['h'] + rise}}[k['give']]
        from metku.raami.frame_loads import LineLoad
        self.p = p = PortalTruss(span=2 * k['L'], height_eaves=k['H'])
        self.k = dict(k, model='ecc_elements', T={'dx': [1, 1]})
        self.t = self.k['T']
        p.create_truss(k['topo'], k['n'], dx=k['dx'], first_diagonal_up=k['up'], nel_chord=k['nel'][0], nel_brace=k['nel'][1], **give)
        T = self.T = p.truss
        self.beams = T.braces_as_beams
        for m in T.top_chord:
            m.cross_section = rhs(k['prof'][0])
        for m in T.bottom_chord:
            m.cross_section = rhs(k['prof'][1])
        for m in T.braces.values():
            m.cross_section = rhs(k['prof'][2])
        for j in T.joints.values():
            if type(j).__name__ == 'TubularKGapJoint':
                j.yloc = 0.25 * j.h0
        p.create_columns(column(k['col']), hinges=[k['base'] == 'hinged', False], nel=list(k['cnel']))
        self.low = k['dx'] == 0
        self.tn = [T.top_nodes[0], T.top_nodes[-1]]
        self.bn = [T.bottom_nodes[0], T.bottom_nodes[-1]]
        self.xy = {id(n): np.array(n.coords, dtype=float) for n in self.tn + self.bn + p.nodes[:2]}
        p.create_truss_to_column_joints(y_joint_node=k['ynode'])
        self.hc0 = self.hc()
        yn = self.bn if self.low else self.tn
        new = p.nodes[-2:] if k['ynode'] else yn
        if k['ynode']:
            new = sorted(new, key=lambda n: n.x)
            self.alias = {id(b): id(a) for a, b in zip(yn, new)}
        p.generate_supports('pinned' if k['base'] == 'pinned' else 'fixed')
        p.symmetry()
        for l in k['loads']:
            if 'q2' in l:
                p.add(LineLoad(p.columns[l['part'] == 'right'], [l['q'], l['q2']], 'x', l['lid'], ltype='live'))
            elif l['part'] in ('left', 'right'):
                p.generate_uniform_load('column', l['q'], l['part'], l['lid'], 'live')
            else:
                p.generate_uniform_load('truss', l['q'], l['part'], l['lid'], 'live')
        self.loads = [{'kind': 'uni', 'chord': l['part'], 'lid': l['lid'], 'q': l['q']} for l in k['loads'] if l['part'] in ('top', 'bottom')]
        self.cloads = [{'kind': 'col', 'chord': l['part'], 'lid': l['lid'], 'q': [l['q'], l.get('q2', l['q'])]} for l in k['loads'] if l['part'] in ('left', 'right')]
        if k['comb']:
            both = self.loads + self.cloads
            order = list(dict.fromkeys(l['lid'] for l in k['loads']))
            self.loads = sorted(both, key=lambda l: order.index(l['lid']))
            self.combine(p, k['comb'])
            self.loads, self.cloads = ([l for l in self.loads if (l['chord'] in ('left', 'right')) == c] for c in (False, True))
        self.keep = [(n, np.array(n.coords, dtype=float)) for c in p.columns for n in c.nodes]
        self.kj = [j for j in T.joints.values() if type(j).__name__ == 'TubularKGapJoint']
        self.eo = {id(j): [0.0, 0.25 * j.h0] for j in self.kj}

    def hc(self):
        s = self.p.columns[0].cross_section
        return getattr(s, 'h', None) or s.H

    def apply(self, op):
        if op[0] == 'column':
            self.p.col_profile = column(op[2])
        else:
            Truss.apply(self, op)

    def u(self, i, chord):
        """Direction of the chord from column i."""
        t = math.radians(self.k['slope']) if chord == 'top' else 0.0
        return np.array([math.cos(t) * (1 - 2 * i), math.sin(t)])

    def face_point(self, i, chord):
        u = self.u(i, chord)
        P = self.xy[id((self.tn if chord == 'top' else self.bn)[i])]
        return P + 0.5 * self.hc() * u / abs(u[0])

    def place(self, n):
        """Positions of the ends of the chords at the columns."""
        for i in (0, 1):
            if n is self.tn[i] and self.low:
                return self.face_point(i, 'top')
            if self.k['ynode'] and n is (self.bn if self.low else self.tn)[i]:
                u = self.u(i, 'bottom' if self.low else 'top')
                return self.xy[id(n)] + (0.5 * self.hc0 + 30) / abs(u[0]) * u
        return n.coords

    def model(self):
        from metku.sections.steel.ISection import IPE
        mod = Truss.model(self)
        stiff = IPE(500)
        nodes, elems, loads = mod['nodes'], mod['elems'], mod['loads']

        def node(x):
            nodes.append([float(x[0]), float(x[1])])
            return len(nodes) - 1

        def beam(a, b, s, rel=()):
            elems.append({'n': [a, b], 'type': 'beam', 'E': E, 'A': float(s.A), 'I': float(s.I[0]), 'rel': list(rel)})
            return len(elems) - 1

        sup = []
        self.cols, self.pieces, self.near = [], {}, {}
        for i, col in enumerate(self.p.columns):
            sec = col.cross_section
            X = [self.xy[id(self.p.nodes[i])]] + ([self.xy[id(self.bn[i])]] if self.low else []) + [self.xy[id(self.tn[i])]]
            nel = self.k['cnel'] if self.low else [sum(self.k['cnel'])]
            ids = [node(X[0])]
            at = [ids[0]]
            for a, b, n in zip(X, X[1:], nel):
                ids += [node(a + (b - a) * q / n) for q in range(1, n + 1)]
                at.append(ids[-1])
            els = [beam(a, b, sec) for a, b in zip(ids, ids[1:])]
            if self.k['base'] == 'hinged':
                elems[els[0]]['rel'] = [2]
            self.cols.append((ids, els, nel))
            sup.append({'node': ids[0], 'dofs': [0, 1] if self.k['base'] == 'pinned' else [0, 1, 2], 'sid': 1})
            for l in self.cloads:
                if l['chord'] == ('left', 'right')[i]:
                    h = [(nodes[n][1] - X[0][1]) / (X[-1][1] - X[0][1]) for n in ids]
                    q = [l['q'][0] + (l['q'][1] - l['q'][0]) * x for x in h]
                    for e, a, b in zip(els, q, q[1:]):
                        loads.append({'type': 'line', 'el': e, 'q': [a, b], 'dir': 'x', 'coords': 'global', 'case': l['lid']})
            top = self.base[id(self.tn[i])]
            if self.low:
                beam(at[2], top, stiff)
                m = self.T.top_chord[-i]
                e = self.spans[id(m)][1][-i]
                elems[e]['rel'] = elems[e]['rel'] + [5 if i else 2]
                f = node(self.face_point(i, 'bottom'))
                beam(at[1], f, stiff)
                self.piece(i, self.T.bottom_chord[-i], f, self.base[id(self.bn[i])], beam)
            else:
                f = node(self.face_point(i, 'top'))
                beam(at[1], f, stiff)
                self.piece(i, self.T.top_chord[-i], f, top, beam)
        mod['supports'] = sup
        return mod

    def piece(self, i, m, f, y, beam):
        """Chord between the face of the column (hinge) and the Y joint."""
        e = beam(f, y, m.cross_section, [2]) if i == 0 else beam(y, f, m.cross_section, [5])
        self.pieces.setdefault(id(m), []).append((i, e))

    def analyse(self):
        p = self.p
        if self.done and self.k['update']:
            p.update_fem_joint_nodes()
            self.hc0 = self.hc()
        else:
            p.clear_fem()
            p.generate_fem(truss_eccentricity=True, column_eccentricity=True)
        self.done = True
        for n, x in self.keep:
            need(np.allclose(n.coords, x, rtol=0, atol=1e-9), lambda: f'a node at {x} of the axis of a column moved to {n.coords}')
        p.structural_analysis('all', 'REM')

    def verify(self, what):
        """Utilisation of the members from all forces found for them."""
        from metku.structures.steel.steel_member import SteelMember
        p = self.p
        lids = list(p.load_cases)
        for m in p.members.values():
            for part in getattr(m, 'members', [m]):
                for lid in lids:
                    f = part.nodal_forces[lid]
                    n = len(f['N'])
                    sway = isinstance(getattr(part, 'sway', None), bool) and part.sway
                    part.design(lid)
                    got = part.utilization[lid]
                    if not self.k['ynode']:         # the buckling length at a moved Y joint stays that of the system lines
                        check_close(part.member.length, part.length(), f'{what}: length of {part!r}', 1e-9)
                    S = SteelMember(part.cross_section, part.member.length, Lcr=list(part.member.lcr), mtype=part.mtype)
                    extra = n != len(part.local_node_coords)
                    for q in range(n):
                        loc = q / (n - 1) if extra else list(part.local_node_coords)[q]
                        S.add_section(loc=loc, ned=f['N'][q], vzed=f['Vz'][q], myed=f['My'][q])
                    w = f'{what}: case {lid}: utilisation of {part!r} ({n} nodes)'
                    if extra:       # the moment distribution for Cm is a matter of taste here: the sections are not
                        r = float(np.max(S.check_sections(class1or2=False)))
                        need(got >= r * (1 - 1e-6), lambda: f'{w}: {got}, {r} in a section')
                        need(min(f['N']) >= 0 or got >= float(np.max(S.check_buckling())) * (1 - 1e-6), lambda: f'{w}: {got}, buckling {S.check_buckling()}')
                    else:
                        check_close(got, float(S.design(sway=sway)), w, 1e-6, 1e-9)

    def check(self, what):
        T, p = self.T, self.p
        mod = self.model()
        for e in mod['elems']:
            if np.linalg.norm(np.subtract(*[mod['nodes'][i] for i in e['n']])) < 1:
                raise Skip('nodes almost coincide')
        ref = refframe.Frame2D(mod)
        ff = ref.factor(1)
        if ff is None or ff[2] > 1e11:
            raise Skip('nearly unstable')
        rtol = max(1e-4, 1e-14 * ff[2])
        for lid in sorted({l['lid'] for l in self.loads + self.cloads}):
            u = ref.solve(lid, 1)
            R = ref.end_forces(u, lid)
            Lc = max(i['L'] for i in ref.info)
            Fs = max(max(np.abs(r[[0, 1, 3, 4]]).max() for r in R), 1.0)
            Ms = max(max(np.abs(r[[2, 5]]).max() for r in R), 1e3, Fs * Lc)
            Fs = max(Fs, Ms / Lc)
            ds = np.abs(u[:3 * len(mod['nodes'])].reshape(-1, 3)[:, :2]).max()

            def compare(m, ids, els, w, flip=False):
                if mod['elems'][els[0]]['type'] == 'rod':
                    N, V, My = [R[els[0]][3]] * 2, [0, 0], [0, 0]
                else:
                    N = [-R[q][0] for q in els] + [R[els[-1]][3]]
                    V = [R[q][1] for q in els] + [-R[els[-1]][4]]
                    My = [-R[q][2] for q in els] + [R[els[-1]][5]]
                f = m.nodal_forces[lid]
                if flip:
                    N, V, My = N[::-1], V[::-1], [-v for v in My[::-1]]
                check_vec(f['N'], N, w + 'axial force', 0, rtol * Fs * 4)
                check_vec(f['Vz'], V, w + 'shear force', 0, rtol * Fs * 4)
                check_vec(f['My'], My, w + 'bending moment', 0, rtol * Ms * 4)
                check_close(abs(m.NEd[lid]), max(map(abs, N)), w + 'NEd', 0, rtol * Fs * 4)
                check_close(abs(m.MyEd[lid]), max(map(abs, My)), w + 'MyEd', 0, rtol * Ms * 4)
                d = m.nodal_displacements[lid]
                for q, j in enumerate(ids[::-1] if flip else ids):
                    check_vec(d[q][:2], u[3 * j:3 * j + 2], w + 'displacement', 0, rtol * ds + 1e-9)

            for name, m in T.members.items():
                ids, els = self.spans[id(m)]
                els = list(els)
                for i, e in self.pieces.get(id(m), []):
                    els = els + [e] if i else [e] + els
                a, b = (np.array(e.coords, dtype=float) for e in m.nodes)
                flip = (np.array(mod['nodes'][ids[-1]]) - mod['nodes'][ids[0]]) @ (b - a) < 0
                compare(m, ids, els, f'{what}: case {lid}, member {name}: ', flip)
            for i, col in enumerate(p.columns):
                ids, els, nel = self.cols[i]
                w = f'{what}: case {lid}, column {i}: '
                a = 0
                for m, n in zip(col.members if self.low else [col], nel):
                    compare(m, ids[a:a + n + 1], els[a:a + n], w)
                    a += n
            for j in self.kj:
                if id(j) in self.gaps:
                    V = max(abs(v) for g in self.gaps[id(j)] for v in (R[g][1], R[g][4]))
                    check_close(j.V0gap(lid), V, f'{what}: case {lid}: shear force in the gap', 0, rtol * Fs * 4)


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


@CHECK.clause('analysis', cases(), quick=320, thorough=10000,
              rule='forces and displacements of every member in every load case, before and after changes of profiles')
def analysis(k):
    F = quiet(Portal, k)
    quiet(F.analyse)
    F.check('first')
    quiet(F.verify, 'first')
    for op in k['ops']:
        F.apply(op)
        quiet(F.analyse)
        F.check(op[0])
        quiet(F.verify, op[0])
    return bool(k['ops']) or len(k['loads']) > 1
