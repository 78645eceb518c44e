"""G01: Frame2D joins members where they meet and analyses that frame."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from lib import gentruss
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('G01', 'at least two members that meet within one of them, or two load cases',
              ['plane frames of steel members', 'no change of geometry after generation'])

PROF = ['IPE 100', 'IPE 200', 'IPE 360', 'HE 200 A', 'HE 300 B', 'SHS 100X100X5', 'RHS 200X100X6', 'CHS 114.3X5']
G = [0, 500, 1000, 1700, 2500, 3000, 4000, 5000.5, 6000, 7300]
pt = st.tuples(st.sampled_from(G), st.sampled_from(G)).map(list)


@st.composite
def frames(draw, heavy=False):
    kind = draw(st.integers(0, 1 if heavy else 3))
    mag = draw(st.sampled_from([1, 2, 5, 10])) if heavy else 1
    mem = []

    def m(a, b):
        cls = draw(st.sampled_from(['beam', 'beam', 'column'] + ['plain'] * (1 if heavy else 2)))
        mem.append({'a': a, 'b': b, 'cls': cls, 'prof': draw(st.integers(0, len(PROF) - 1)),
                    'nel': draw(st.sampled_from([1, 2, 3, 4, 5])),
                    'Sj': [draw(st.sampled_from([None, None, 0.0, 1e9, 5e10])) for _ in 'ab'] if cls == 'beam' else [None, None],
                    'hinge': [draw(st.sampled_from([False, False, True])) for _ in 'ab'] if cls == 'plain' else [False, False]})
    if kind <= 1:       # portal with extra members
        w, h, r = draw(st.sampled_from([4000, 6000, 7300])), draw(st.sampled_from([2500, 3000, 5000.5])), draw(st.sampled_from([0, 500, 1000, 1700]))
        m([0, 0], [0, h])
        m([w, 0], [w, h])
        if r:
            m([0, h], [w / 2, h + r])
            m([w, h], [w / 2, h + r]) if draw(st.booleans()) else m([w / 2, h + r], [w, h])
        else:
            m([0, h], [w, h])
        for _ in range(draw(st.integers(0, 2))):
            c = draw(st.integers(0, 3))
            y = draw(st.sampled_from([500, 1000, 1700, 2500]))
            x = draw(st.sampled_from([500, 1000, 1700, 3000]))
            if c == 0:
                m([0, y], [w, y])
            elif c == 1 and r:      # post up to the rafter
                m([x, 0], [x, round(h + r * (x if x <= w / 2 else w - x) / (w / 2), 3)])
            elif c == 2:
                m([0, 0], [w, h])
            else:
                m([w, y], [0, h])
        if draw(st.booleans()):
            mem[:] = draw(st.permutations(mem))
    else:
        for _ in range(draw(st.integers(1, 5))):
            a = draw(pt)
            if mem and draw(st.integers(0, 3)):
                a = list(mem[draw(st.integers(0, len(mem) - 1))][draw(st.sampled_from('ab'))])
            m(a, draw(pt.filter(lambda b: math.dist(a, b) > 400)))
    sup, loads = [], []
    for c in ([0, 0], [w, 0]) if kind <= 1 else (mem[0]['a'],):
        if heavy or draw(st.integers(0, 7)):
            sup.append({'m': 0, 't': 0, 'at': list(c), 'kind': draw(st.sampled_from(['fixed', 'fixed', 'xy'])), 'after': draw(st.integers(0, 5))})
    for _ in range(draw(st.integers(0 if len(sup) > 1 else 1, 3))):
        sup.append({'m': draw(st.integers(0, 4)), 't': draw(st.sampled_from([0, 0, 0, 1, 0.5, 0.3])),
                    'kind': draw(st.sampled_from(['fixed', 'fixed', 'xy', 'xy', 'x', 'y'])), 'after': draw(st.integers(0, 5))})
    for _ in range(draw(st.integers(2 if heavy else 1, 4))):
        q = draw(st.sampled_from(['line', 'line', 'point']))
        L = {'kind': q, 'm': draw(st.integers(0, 4)), 'f': draw(st.sampled_from([1.0, 1.0, 1.5, 0.0])),
             'lid': draw(st.sampled_from([None, 1, 2] if heavy else [None, None, 1, 2])), 'name': draw(st.sampled_from([None, None, 'A', 'A1', 'A2']))}
        if q == 'line':
            v = mag * draw(st.sampled_from([-20, -5.5, 7, 12]))
            L.update(q=[v, draw(st.sampled_from([v, v, 0, -10 * mag]))], dir=draw(st.sampled_from(['x', 'y', 'y'])),
                     cs=draw(st.sampled_from(['global', 'global', 'local'])))
        else:
            L.update(t=draw(st.sampled_from([0, 1, 0.5, 0.3, 0.77])), v=[mag * draw(st.sampled_from([0, 1e4, -5e4])), mag * draw(st.sampled_from([0, -3e4, 8e3])), mag * draw(st.sampled_from([0, 0, 5e6]))],
                     after=draw(st.integers(0, 5)), tup=draw(st.booleans()))
        loads.append(L)
    return {'mem': mem, 'sup': sup, 'loads': loads, 'sw': draw(st.sampled_from([False, False, True])),
            'method': draw(st.sampled_from(['REM', 'ZERO']))}


def meet(p, q):
    """Points where two members meet (None: they overlap)."""
    F = Fraction
    a, b, c, d = [tuple(F(round(v * 1000), 1000) for v in z) for z in (p['a'], p['b'], q['a'], q['b'])]
    r, s = (b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1])
    den = r[0] * s[1] - r[1] * s[0]
    w = (c[0] - a[0], c[1] - a[1])
    if den == 0:
        if abs(w[0] * r[1] - w[1] * r[0]) > F(5) * max(abs(r[0]), abs(r[1])):
            return []
        t = [(x[0] - a[0]) * r[0] + (x[1] - a[1]) * r[1] for x in (c, d)]
        n = r[0] ** 2 + r[1] ** 2
        lo, hi = min(t) / n, max(t) / n
        if hi < 0 or lo > 1:
            return []
        if hi == 0 or lo == 1:
            return [tuple(map(float, a if hi == 0 else b))]
        return None
    # an end on the other member, up to the rounding of the coordinates
    out = []
    for (e, (o, v)) in [(a, (c, s)), (b, (c, s)), (c, (a, r)), (d, (a, r))]:
        n = float(v[0] ** 2 + v[1] ** 2)
        u = (e[0] - o[0], e[1] - o[1])
        dist = abs(float(u[0] * v[1] - u[1] * v[0])) / math.sqrt(n)
        t = float(u[0] * v[0] + u[1] * v[1]) / n
        if dist < 1e-3 and -1e-7 <= t <= 1 + 1e-7:
            out.append(tuple(map(float, e)))
        elif dist < 1 and -1e-3 < t < 1 + 1e-3:
            raise Skip('almost meeting')
    if out:
        return sorted(set(out))
    t, u = (w[0] * s[1] - w[1] * s[0]) / den, (w[0] * r[1] - w[1] * r[0]) / den
    if 0 <= t <= 1 and 0 <= u <= 1:
        return [(float(a[0] + t * r[0]), float(a[1] + t * r[1]))]
    return []


def near(p, q, tol=2e-3):
    return abs(p[0] - q[0]) < tol and abs(p[1] - q[1]) < tol


class Model:
    def __init__(self, k):
        from metku.frame2d import frame2d as f2
        self.k, self.f2 = k, f2
        mem = self.mem = k['mem']
        for m in mem:
            if math.dist(m['a'], m['b']) < 400:
                raise Skip('short')
        n = len(mem)
        self.joined = []            # points where members meet
        for i in range(n):
            for j in range(i):
                p = meet(mem[i], mem[j])
                if p is None:
                    raise Skip('overlap')
                self.joined += [(x, i, j) for x in p]
        pts = []
        for x, i, j in self.joined:
            if not any(near(x, y) for y in pts):
                if any(math.dist(x, y) < 60 for y in pts):
                    raise Skip('too close')
                pts.append(x)
        if any(0.0 in m['Sj'] for m in mem):    # a hinge is a very weak spring: no moment there
            for l in k['loads']:
                if l['kind'] == 'point':
                    l['v'][2] = 0
        self.fr = f2.Frame2D()
        self.M, todo = [], []
        for s in k['sup']:
            m = mem[s['m'] % n]
            c = [m['a'][i] + s['t'] * (m['b'][i] - m['a'][i]) for i in (0, 1)]
            s['c'] = s['at'] if s.get('at') else [round(x, 3) for x in c]
            todo.append((s['after'], 'sup', s))
        for l in k['loads']:
            if l['kind'] == 'point':
                m = mem[l['m'] % n]
                c = [m['a'][i] + l['t'] * (m['b'][i] - m['a'][i]) for i in (0, 1)]
                l['c'] = [round(x, 3) for x in c]
                todo.append((l['after'], 'pl', l))
        for what in [t[2]['c'] for t in todo]:
            for y in pts + [t[2]['c'] for t in todo]:
                if 0 < math.dist(what, y) < 60 and not near(what, y, 5e-3):
                    raise Skip('too close')
        for m in mem:       # points within half a micrometre of a division point may or may not share its node
            div = [[m['a'][i] + q / m['nel'] * (m['b'][i] - m['a'][i]) for i in (0, 1)] for q in range(1, m['nel'])]
            if any(3e-4 < math.dist(c, y) < 60 for c in div for y in pts + [t[2]['c'] for t in todo]):
                raise Skip('close to a division point')
        for i, m in enumerate(mem):
            kw = dict(profile=PROF[m['prof']], num_elements=m['nel'])
            co = [list(m['a']), list(m['b'])]
            if m['cls'] == 'beam':
                kw.update({f'Sj{q + 1}': v for q, v in enumerate(m['Sj']) if v is not None})
                x = f2.SteelBeam(co, **kw)
            elif m['cls'] == 'column':
                x = f2.SteelColumn(co, **kw)
            else:
                x = f2.FrameMember(co, **kw)
                for q in (0, 1):
                    if m['hinge'][q]:
                        x.add_hinge(q)
            self.fr.add(x)
            self.M.append(x)
            for a, w, o in todo:
                if (a == i or (a >= n and i == n - 1)):
                    self.put(w, o)
        for l in k['loads']:
            if l['kind'] == 'line':
                kw = {} if l['lid'] is None else {'load_id': l['lid']}
                if l['name']:
                    kw['name'] = l['name']
                self.fr.add(f2.LineLoad(self.M[l['m'] % n], list(l['q']), l['dir'], f=l['f'], coord_sys=l['cs'], **kw))
        self.fr.generate(self_weight=k['sw'])
        self.A = [x.cross_section.A for x in self.M]
        self.model()

    @staticmethod
    def slope(m):               # steep beams are columns, which have rigid ends
        return abs(m['b'][1] - m['a'][1]) / max(abs(m['b'][0] - m['a'][0]), 1e-12)

    def lid(self, l):
        return self.f2.LoadIDs.ULS if l is None else l

    def put(self, w, o):
        f2 = self.f2
        if w == 'sup':
            c = {'fixed': f2.FixedSupport, 'xy': f2.XYHingedSupport, 'x': f2.XHingedSupport, 'y': f2.YHingedSupport}[o['kind']]
            self.fr.add(c(list(o['c'])))
        else:
            kw = {} if o['lid'] is None else {'load_id': o['lid']}
            if o['name']:
                kw['name'] = o['name']
            self.fr.add(f2.PointLoad(tuple(o['c']) if o['tup'] else list(o['c']), list(o['v']), f=o['f'], **kw))

    def model(self):
        """reference model on the nodes of the members"""
        k, mem = self.k, self.mem
        nodes, self.mn = [], []
        self.special = []
        for i, (m, x) in enumerate(zip(mem, self.M)):
            co = [tuple(float(v) for v in n.coord) for n in x.nodes.values()]
            need(near(co[0], m['a']) and near(co[-1], m['b']), lambda: f'ends {co} of member {m["a"]}-{m["b"]}')
            d = [(m['b'][q] - m['a'][q]) / math.dist(m['a'], m['b']) for q in (0, 1)]
            s = [(c[0] - m['a'][0]) * d[0] + (c[1] - m['a'][1]) * d[1] for c in co]
            need(all(b - a > 0 for a, b in zip(s, s[1:])), lambda: f'nodes of a member out of order: {co}')
            need(all(abs((c[0] - m['a'][0]) * d[1] - (c[1] - m['a'][1]) * d[0]) < 5e-3 for c in co), 'node off its member')
            want = [p for p, a, b in self.joined if i in (a, b)]
            want += [s_['c'] for s_ in k['sup'] if self.on(m, s_['c'])] + [l['c'] for l in k['loads'] if l['kind'] == 'point' and self.on(m, l['c'])]
            for p in want:
                need(any(near(p, c) for c in co), lambda: f'no node at {p} of member {m["a"]}-{m["b"]}: {co}')
            idx = []
            for c in co:
                j = next((p for p, i2, j2 in self.joined if i in (i2, j2) and near(p, c)), None)
                if j is None:
                    nodes.append(c)
                    idx.append(len(nodes) - 1)
                else:
                    h = next((q for q, c2 in enumerate(nodes) if near(c2, j) and q in self.special), None)
                    if h is None:
                        nodes.append(c)
                        h = len(nodes) - 1
                        self.special.append(h)
                    idx.append(h)
            self.mn.append((idx, s))
        elems, self.me = [], []
        for m, x, (idx, s) in zip(mem, self.M, self.mn):
            sec = x.cross_section
            row = []
            for q in range(len(idx) - 1):
                e = {'n': [idx[q], idx[q + 1]], 'type': 'beam', 'E': 210e3, 'A': sec.A, 'I': sec.I[0], 'rel': []}
                if m['cls'] == 'beam' and self.slope(m) < 0.8:
                    rot = [m['Sj'][0] if q == 0 else None, m['Sj'][1] if q == len(idx) - 2 else None]
                    rot = [None if v is None else max(v, 1e-4) for v in rot]
                    if any(v is not None for v in rot):
                        e['rot'] = rot
                if m['cls'] == 'plain':
                    if q == 0 and m['hinge'][0]:
                        e['rel'].append(2)
                    if q == len(idx) - 2 and m['hinge'][1]:
                        e['rel'].append(5)
                row.append(len(elems))
                elems.append(e)
            self.me.append(row)
        sup = []
        for s_ in k['sup']:
            for h in {idx[q] for m, (idx, s) in zip(mem, self.mn) for q in range(len(idx)) if near(nodes[idx[q]], s_['c'])}:
                sup.append({'node': h, 'dofs': {'fixed': [0, 1, 2], 'xy': [0, 1], 'x': [0], 'y': [1]}[s_['kind']], 'sid': 1})
        loads = []
        for l in k['loads']:
            if l['kind'] == 'point':
                h = {idx[q] for m, (idx, s) in zip(mem, self.mn) for q in range(len(idx)) if near(nodes[idx[q]], l['c'])}
                loads.append({'type': 'point', 'node': min(h), 'v': [a * l['f'] for a in l['v']], 'case': self.lid(l['lid'])})
            else:
                self.line(loads, l['m'] % len(mem), [a * l['f'] for a in l['q']], l['dir'], l['cs'], self.lid(l['lid']))
        if k['sw']:
            for i, x in enumerate(self.M):
                v = -10 * self.A[i] * 7850e-9
                self.line(loads, i, [v, v], 'y', 'global', self.lid(None))
        self.ref = {'nodes': [list(c) for c in nodes], 'elems': elems, 'supports': sup, 'loads': loads}
        self.lids = []
        for l in k['loads']:
            if self.lid(l['lid']) not in self.lids:
                self.lids.append(self.lid(l['lid']))
        if k['sw'] and self.lid(None) not in self.lids:
            self.lids.append(self.lid(None))

    def on(self, m, c):
        L = math.dist(m['a'], m['b'])
        d = [(m['b'][q] - m['a'][q]) / L for q in (0, 1)]
        t = (c[0] - m['a'][0]) * d[0] + (c[1] - m['a'][1]) * d[1]
        o = abs((c[0] - m['a'][0]) * d[1] - (c[1] - m['a'][1]) * d[0])
        if o > 1.5e-3 and o < 60 and -1 < t < L + 1:
            raise Skip('close to a member')
        return o < 1.5e-3 and -1e-3 < t < L + 1e-3

    def line(self, loads, i, q, d, cs, lid):
        idx, s = self.mn[i]
        for r, e in enumerate(self.me[i]):
            v = [q[0] + (q[1] - q[0]) * z / s[-1] for z in (s[r], s[r + 1])]
            loads.append({'type': 'line', 'el': e, 'q': v, 'dir': d, 'coords': cs, 'case': lid})

    def compare(self):
        import numpy as np
        from lib.refframe import Frame2D as R
        for x, row in zip(self.M, self.me):
            for e in row:
                self.ref['elems'][e].update(A=x.cross_section.A, I=x.cross_section.I[0])
        ref = R(self.ref)
        f = ref.factor(1)
        if f is None or f[2] > 2e8:
            raise Skip('unstable')
        try:
            self.fr.calculate('ALL', self.k['method'])
        except np.linalg.LinAlgError:
            raise Skip('singular: numerically')
        need(set(map(str, self.fr.load_cases)) == set(map(str, self.lids)), 'load cases')
        self.forces = {}
        near_ref = R(dict(self.ref, round=3))   # elements have lengths in whole micrometres
        for lid in self.lids:
            u = ref.solve(lid, 1)
            P = ref.end_forces(u, lid)
            u2 = near_ref.solve(lid, 1)
            P2 = near_ref.end_forces(u2, lid)
            dP = 3 * max(abs(r[q] - r2[q]) for r, r2 in zip(P, P2) for q in (0, 1, 3, 4))
            dM = 3 * max(abs(r[q] - r2[q]) for r, r2 in zip(P, P2) for q in (2, 5))
            du = 3 * max(abs(u - u2))
            su = max(1e-9, abs(u[:3 * len(self.ref['nodes'])].reshape(-1, 3)[:, :2]).max())
            sr = max(su / 1e4, abs(u[2:3 * len(self.ref['nodes']):3]).max())
            sc = [max([1e-3] + [abs(r[q]) for r in P for q in a]) for a in ((0, 3), (1, 4), (2, 5))]
            sc[0] = sc[1] = max(sc[0], sc[1], sc[2] * 1e-4)
            sc[2] = max(sc[2], 10 * sc[0])
            tol = max(1e-5, 2e-12 * f[2])
            for i, x in enumerate(self.M):
                N, V, B = [], [], []
                need(len(x.elements) == len(self.me[i]), 'elements')
                for el, e in zip(x.elements.values(), self.me[i]):
                    r, fi = P[e], el.fint[lid]
                    for key, w, c in (('fx', [-r[0], r[3]], 0), ('fz', [r[1], -r[4]], 1), ('my', [-r[2], r[5]], 2)):
                        for q in (0, 1):
                            check_close(fi[key][q], w[q], f'{key} of member {i} in case {lid}', rtol=tol, atol=tol * sc[c] + (dP if c < 2 else dM))
                    N += [-r[0], r[3]]
                    V += [r[1], -r[4]]
                    B += [-r[2], r[5]]
                self.forces[i, lid] = [(-P[e][0], P[e][1], -P[e][2]) for e in self.me[i]] + [(P[e][3], -P[e][4], P[e][5])]
                for dic, w, c, nm in ((x.NEd, N, 0, 'NEd'), (x.VEd, V, 1, 'VEd'), (x.MEd, B, 2, 'MEd')):
                    check_close(abs(dic[lid]), max(map(abs, w)), f'{nm} of member {i}', rtol=tol, atol=tol * sc[c] + (dP if c < 2 else dM))
                for h, nid, n in zip(self.mn[i][0], x.nodes, x.nodes.values()):
                    for q in (0, 1):
                        check_close(n.u[lid][q], u[3 * h + q], f'displacement of member {i} in case {lid}', rtol=10 * tol, atol=10 * tol * su + du)
                    if not any(s_['node'] == h for s_ in self.ref['supports']) and not any(any(m['hinge']) or 0.0 in m['Sj'] for m in self.mem):
                        check_close(n.u[lid][2], u[3 * h + 2], f'rotation of member {i} in case {lid}', rtol=10 * tol, atol=10 * tol * sr + du)
                    need(tuple(x.nodal_displacements[lid][nid]) == tuple(n.u[lid]), 'nodal_displacements')
                for dic, q in ((x.dx, 0), (x.dy, 1)):
                    check_close(abs(dic[lid]), max(abs(u[3 * h + q]) for h in self.mn[i][0]), f'largest displacement of member {i}', rtol=10 * tol, atol=10 * tol * su + du)
                if lid == self.lids[-1] and lid == self.fr.load_cases[-1]:
                    for a, w, c in ((x.ned, N, 0), (x.ved, V, 1), (x.med, B, 2)):
                        check_close(abs(a), max(map(abs, w)), 'largest force', rtol=tol, atol=tol * sc[c] + (dP if c < 2 else dM))
        return tol

    def design(self, tol):
        for i, x in enumerate(self.M):
            for lid in self.lids:
                check_close(x.r[lid], self.utilisation(i, x.cross_section, lid), f'utilisation of member {i} in case {lid}', rtol=1e-4, atol=1e-6)
            worst = [x.r[lid] for lid in self.lids]
            need(x.is_strong_enough == (x.r[self.fr.load_cases[-1]] <= 1.0), 'is_strong_enough') if worst else None

    def utilisation(self, i, sec, lid):
        from metku.structures.steel.steel_member import SteelMember
        m, (idx, s) = self.mem[i], self.mn[i]
        S = SteelMember(sec, s[-1], Lcr=[1.0, 1.0], mtype=self.M[i].member.type)
        # the forces of the elements have been compared with the reference; both sides of
        # every node are sections of the member
        fs = [e.fint[lid] for e in self.M[i].elements.values()]
        for r, f in enumerate(fs):
            for q in (0, 1):
                S.add_section(ned=f['fx'][q], vzed=f['fz'][q], myed=f['my'][q], loc=round(s[r + q] / s[-1], 3) - (1e-7 if q and r + 1 < len(fs) else 0))
        return S.design()


@CHECK.clause('response', st.fixed_dictionaries({
    'fr': frames(), 'change': st.lists(st.tuples(st.integers(0, 4), st.sampled_from(['prof', 'prof', 'Sj1', 'Sj2', 'sec', 'h', 'h']),
                                                 st.integers(0, len(PROF) - 1)), max_size=2)}), quick=900, thorough=30000,
    rule='members that meet away from their ends, or several load cases')
def response(k):
    M = Model(k['fr'])
    mem = k['fr']['mem']
    check_close(M.fr.weight, sum(x.cross_section.A * math.dist(m['a'], m['b']) * 7850e-9 for x, m in zip(M.M, mem)), 'weight')
    for i, nm in ((0, 'L'), (1, 'H')):
        v = [m[e][i] for m in mem for e in 'ab']
        check_close(getattr(M.fr, nm), max(v) - min(v), nm, atol=1e-9)
    M.design(M.compare())
    for i, w, v in k['change']:
        i %= len(mem)
        x, m = M.M[i], mem[i]
        if w == 'prof':
            x.profile = PROF[v]
        elif w == 'h':          # another height of the same family
            h, name = [120, 160, 200, 240, 300, 140, 180, 220][v], str(x.profile).split()
            if name[0] in ('RHS', 'CHS'):
                continue
            t = max(round(h / 20), 2)
            name = f'SHS {h}X{h}X{float(t)}' if name[0] == 'SHS' else ' '.join([name[0], str(h)] + name[2:])
            x.h = h
            c, d = x.cross_section, M.f2.FrameMember([[0, 0], [1000, 0]], profile=name).cross_section
            check_vec([c.A, c.I[0]], [d.A, d.I[0]], 'section of another height', 1e-9)
        elif w == 'sec':
            x.profile = M.f2.FrameMember([[0, 0], [1000, 0]], profile=PROF[v]).cross_section
        else:
            if m['cls'] != 'beam' or M.slope(m) >= 0.8:
                continue
            val = [0.0, 1e9, 3e10, 2e8, 1e11, 1e10, 5e9, 1e8][v]
            setattr(x, w, val)
            m['Sj'][int(w[2]) - 1] = val
            M.model()
    if k['change']:
        M.design(M.compare())
    return len(M.lids) > 1 or any(not near(p, mem[i][e]) for p, a, b in M.joined for i in (a, b) for e in 'ab')


@CHECK.clause('optimum', st.fixed_dictionaries({
    'fr': frames(heavy=True), 'type': st.sampled_from(['CURRENT', 'CURRENT', 'IPE', 'SHS', 'ipe', 'H', 'CHS', 'RHS']), 'i': st.integers(0, 4)}), quick=250, thorough=6000,
    rule='several load cases and a profile that is not among the first ones')
def optimum(k):
    from metku.frame2d import frame2d as f2
    from metku.sections.steel.catalogue import make_section
    M = Model(k['fr'])
    M.compare()
    i = k['i'] % len(M.M)
    x = M.M[i]
    fam = k['type'].upper()
    if fam == 'CURRENT':
        fam = {'IPE': 'IPE', 'SHS': 'SHS', 'CHS': 'CHS', 'HEA': 'H', 'HEB': 'H', 'RHS': 'RHS'}[type(x.cross_section).__name__]
    names = list({'IPE': f2.ipe_profiles, 'SHS': f2.shs_profiles, 'CHS': f2.chs_profiles, 'H': f2.h_profiles, 'RHS': f2.rhs_profiles}[fam])
    old = str(x.cross_section)
    changed = x.optimum_design(k['type'])
    got = str(x.cross_section)
    n = 0
    for n, name in enumerate(names):
        if fam == 'H':
            s = f2.FrameMember([[0, 0], [1000, 0]], profile=name).cross_section
        else:
            s = make_section(name)
            s.material = 'S355'
        r = [M.utilisation(i, s, lid) for lid in M.lids]
        if any(abs(v - 1) < 1e-4 for v in r):
            raise Skip('borderline')
        if all(v <= 1 for v in r):
            break
    need(got == str(s), lambda: f'{got} chosen, the first profile that carries all load cases is {s}')
    need(changed == (got != old), 'reported change')
    need(all(e.section is x.cross_section for e in x.elements.values()), 'sections of the elements')
    return n > 2 and len(M.lids) > 1


@CHECK.clause('optimize', st.fixed_dictionaries({'fr': frames(heavy=True), 'type': st.sampled_from(['IPE', 'SHS'])}), quick=100, thorough=2500,
              rule='when repeated design settles all members carry the forces of the final frame')
def optimize(k):
    from metku.sections.steel.catalogue import make_section
    M = Model(k['fr'])
    M.compare()
    M2 = Model(k['fr'])
    for rounds in range(8):             # design and analysis repeated here, until nothing changes
        M2.fr.calculate('ALL', 'REM')
        if not any([x.optimum_design(k['type']) for x in M2.M]):
            break
    else:
        raise Skip('does not settle')
    M.fr.optimize_members(k['type'])
    now = [str(x.cross_section) for x in M.M]
    M.compare()
    top = str(make_section(list({'IPE': M.f2.ipe_profiles, 'SHS': M.f2.shs_profiles}[k['type']])[-1]))
    for i, x in enumerate(M.M):
        for lid in M.lids:
            u = M.utilisation(i, x.cross_section, lid)
            need(u <= 1 + 1e-6 or now[i] == top, lambda: f'utilisation {u} of member {i} ({now[i]}) after optimisation')
    return len(M.M) > 1 and rounds > 1


@CHECK.clause('simple', st.fixed_dictionaries({
    'dim': st.tuples(st.integers(1, 4), st.integers(1, 4), st.sampled_from([3000, 3650, 2500.5]), st.sampled_from([5000, 7300, 4000.25])).map(list),
    'kind': st.sampled_from(['FIXED', 'XHINGED', 'YHINGED', 'XYHINGED', 'fixed']), 'beams': st.sampled_from([True, True, False]),
    'nel': st.sampled_from([None, 2, 5]), 'q': st.sampled_from([-10, -25.5])}), quick=80, thorough=1000,
    rule='more than one storey and bay')
def simple(k):
    import numpy as np
    from lib.refframe import Frame2D as R
    from metku.frame2d import frame2d as f2
    s, b, h, L = k['dim']
    F = f2.Frame2D(simple=[s, b, h, L], supports=k['kind'], num_elements=k['nel'], create_beams=k['beams'])
    cols = {((i * L, j * h), (i * L, (j + 1) * h)) for i in range(b + 1) for j in range(s)}
    beams = {((i * L, (j + 1) * h), ((i + 1) * L, (j + 1) * h)) for i in range(b) for j in range(s)} if k['beams'] else set()
    got = lambda ms: sorted(tuple(sorted(tuple(np.round(c, 6)) for c in m.coordinates)) for m in ms)
    need(got(F.columns) == sorted(cols), 'columns')
    need(got(F.beams) == sorted(beams), 'beams')
    dofs = {'FIXED': [0, 1, 2], 'XHINGED': [0], 'YHINGED': [1], 'XYHINGED': [0, 1]}[k['kind'].upper()]
    need(sorted((round(x.coordinate[0], 6), round(x.coordinate[1], 6), tuple(x.dofs)) for x in F.supports.values())
         == [(i * L, 0, tuple(dofs)) for i in range(b + 1)], 'supports')
    if len(dofs) < 2 or not k['beams']:
        return s > 1 and b > 1
    for m in F.beams:
        F.add(f2.LineLoad(m, [k['q'], k['q']], 'y', load_id=1))
    F.add(f2.PointLoad([0, s * h], [2e4, 0, 0], load_id=2))
    F.generate()
    F.calculate('ALL')
    nodes = [[i * L, j * h] for i in range(b + 1) for j in range(s + 1)]
    at = {tuple(c): q for q, c in enumerate(nodes)}
    M = list(F.members.values())
    elems, loads = [], [{'type': 'point', 'node': at[0, s * h], 'v': [2e4, 0, 0], 'case': 2}]
    for q, m in enumerate(M):
        c = [tuple(v) for v in np.round(m.coordinates, 6)]
        elems.append({'n': [at[c[0]], at[c[1]]], 'type': 'beam', 'E': 210e3, 'A': m.cross_section.A, 'I': m.cross_section.I[0], 'rel': []})
        if m.mtype == 'beam':
            loads.append({'type': 'line', 'el': q, 'q': [k['q']] * 2, 'dir': 'y', 'coords': 'global', 'case': 1})
    ref = R({'nodes': nodes, 'elems': elems, 'loads': loads,
             'supports': [{'node': at[i * L, 0], 'dofs': dofs, 'sid': 1} for i in range(b + 1)]})
    for lid in (1, 2):
        P = ref.end_forces(ref.solve(lid, 1), lid)
        scale = max(abs(r[q]) for r in P for q in (0, 1, 3, 4))
        sm = max(abs(r[q]) for r in P for q in (2, 5))
        for m, r in zip(M, P):
            f = [e.fint[lid] for e in m.elements.values()]
            for q, w in ((f[0]['fx'][0], -r[0]), (f[-1]['fx'][1], r[3]), (f[0]['fz'][0], r[1]), (f[-1]['fz'][1], -r[4])):
                check_close(q, w, 'force', rtol=1e-5, atol=1e-5 * scale)
            for q, w in ((f[0]['my'][0], -r[2]), (f[-1]['my'][1], r[5])):
                check_close(q, w, 'moment', rtol=1e-5, atol=1e-5 * sm)
    return s > 1 and b > 1


@CHECK.clause('pinned', gentruss.trusses(), quick=600, thorough=8000, rule='several load cases or a statically indeterminate truss')
def pinned(k):
    """SimpleTruss: forces, displacements, statics matrix and self-made equilibrium of pin-jointed trusses"""
    import numpy as np
    from metku.frame2d import frame2d as f2
    from metku.frame2d.simple_truss import SimpleTruss
    if gentruss.same_line(k):
        raise Skip('nodes on members')
    name = lambda p: {'HEA': 'HE {:g} A', 'IPE': 'IPE {:g}', 'SHS': 'SHS {0:g}X{0:g}X{1:g}', 'RHS': 'RHS {:g}X{:g}X{:g}', 'CHS': 'CHS {:g}X{:g}'}[p[0]].format(*p[1:])
    T = SimpleTruss([list(x) for x in k['X']], [list(m) for m in k['mem']], [name(gentruss.PROF[i]) for i in k['prof']])
    for a, s in k['sup']:
        T.add({'xy': f2.XYHingedSupport, 'x': f2.XHingedSupport, 'y': f2.YHingedSupport}[s](k['X'][a]))
    for i, l in enumerate(k['loads']):
        T.add(f2.PointLoad(list(k['X'][l['n']]), [*l['v'], 0], load_id=l['case'], f=l['f'], name=f'p{i}'))
    M = list(T.members.values())
    need(len(M) == len(k['mem']), 'members')
    ref = gentruss.Reference(k, [m.cross_section.A for m in M])
    T.generate()
    need(len(T.f.elements) == len(M), 'one element for each member')
    T.calculate('ALL', k['method'])
    cases = sorted({l['case'] for l in k['loads']})
    for c in cases:
        u, N = ref.solve(c)
        sN, su = max(map(abs, N)), max(map(abs, u))
        big = max(sN, max(map(abs, ref.load(c))))
        for m, w in zip(M, N):
            check_close(m.NEd[c], w, f'force of a member in case {c}', rtol=1e-5, atol=1e-5 * big)
            el = list(m.elements.values())[0]
            check_vec(el.fint[c]['fx'], [w, w], 'force of an element', rtol=1e-5, atol=1e-5 * big)
        for x, q in zip(k['X'], range(len(k['X']))):
            nd = [n for n in T.f.nodes if near((n.x, n.y), x)]
            need(len(nd) == (1 if any(q in p for p in k['mem']) else 0), 'nodes')
            for n in nd:
                check_vec([n.u[c][i] for i in (0, 1)], u[2 * q:2 * q + 2], f'displacement in case {c}', rtol=1e-5, atol=1e-5 * su)
    # statics matrix: nodal loads in balance with the element forces
    B = T.f.statics_matrix()
    need(B.shape == (len(ref.free), len(M)), 'size of the statics matrix')
    order = [M[q] for q in range(len(M))]
    col = {id(list(m.elements.values())[0]): q for q, m in enumerate(order)}
    for c in cases:
        u, N = ref.solve(c)
        F = B @ np.array([N[col[id(e)]] for e in T.f.elements])
        p = np.delete(T.f.global_load_vector(c), T.f.supp_dofs)
        check_vec(F, p, 'equilibrium by the statics matrix', rtol=1e-5, atol=1e-5 * max(map(abs, N), default=1) + 1e-6)
    return len(cases) > 1 or len(k['mem']) > len(ref.free)
