"""R01: Raami frames: the analysis model and the results represent the frame."""
import copy
import os
import random
import shutil
import tempfile

from hypothesis import strategies as st

from lib import genframe, gentruss, refframe
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('R01', 'at least two members and two load cases, or at least one modification after the first analysis',
              ['plane frames', 'sections of class 1-3', 'bars undivided'])
U = st.floats(0, 1)
NZ = st.integers(-50, 50).filter(bool)
SECS = [('RHS', 100, 100, 6), ('RHS', 200, 150, 8), ('SHS', 150, 8), ('SHS', 90, 5), ('HEA', 200), ('HEB', 160),
        ('IPE', 200), ('CHS', 139.7, 8), ('HEA', 300)]
PSI = {'LIVE': 0.7, 'SNOW': 0.7, 'WIND': 0.6}
SELF = 100


def section(i):
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.RHS import RHS, SHS
    import importlib
    I = importlib.import_module('metku.sections.steel.ISection')
    s = SECS[i % len(SECS)]
    return {'RHS': RHS, 'SHS': SHS, 'CHS': CHS, 'HEA': I.HEA, 'HEB': I.HEB, 'IPE': I.IPE}[s[0]](*s[1:])


@st.composite
def frames(draw, max_nodes=6, bars=True, exact=True):
    nodes, edges = draw(genframe.geometry(max_nodes, exact))
    n = len(nodes)
    mem = [{'n': e, 'type': draw(st.sampled_from(['beam', 'column', 'top_chord', 'bottom_chord'])),
            'sec': draw(st.integers(0, len(SECS) - 1)), 'nel': draw(st.sampled_from([1, 1, 2, 4, 5])),
            'hinge': draw(st.sampled_from([None] * 5 + [[1, 0], [0, 1], [1, 1]])),
            'lcr': draw(st.sampled_from([None, [0.9, 1.0], [2.0, 0.5]]))} for e in edges]
    if bars and n > 2:
        have = {tuple(sorted(e)) for e in edges}
        for _ in range(draw(st.integers(0, 2))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if i != j and tuple(sorted((i, j))) not in have:
                have.add(tuple(sorted((i, j))))
                mem.append({'n': [i, j], 'type': draw(st.sampled_from(['bar', 'brace'])), 'sec': draw(st.integers(0, 4)),
                            'nel': 1, 'hinge': None, 'lcr': None})
    sup = [[i, 'fix' if q == 0 else draw(st.sampled_from(['fix', 'xy', 'xy', 'x', 'y']))]
           for q, i in enumerate(draw(st.permutations(range(n)))[:draw(st.integers(1, min(3, n)))])]
    return {'nodes': nodes, 'mem': mem, 'sup': sup}


@st.composite
def load(draw, nmem=6):
    kind = draw(st.sampled_from(['point', 'line', 'line', 'pw']))
    l = {'kind': kind, 'at': draw(st.integers(0, 11)), 'f': draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, -2.0])),
         'ltype': draw(st.sampled_from(['live', 'dead', 'wind', 'snow'])), 'lid': draw(st.integers(0, 2)),
         'name': draw(st.sampled_from([None, None, None, 'L', 'L1', 'L2'])), 'case': draw(st.booleans())}
    if kind == 'point':
        l['v'] = [1000.0 * draw(NZ), 1000.0 * draw(NZ), 1e6 * draw(st.integers(-30, 30))]
        if draw(st.booleans()):
            l['v'] = [int(a) for a in l['v']]
    else:
        l['v'] = [draw(NZ), draw(st.integers(-50, 50))]
        l['dir'] = draw(st.sampled_from(['x', 'y', 'y']))
        l['cs'] = draw(st.sampled_from(['global', 'local']))
        l['div'] = draw(st.integers(1, 19))
    return l


OPS = st.one_of(
    st.tuples(st.just('sec'), st.integers(0, 11), st.integers(0, len(SECS) - 1)),
    st.tuples(st.just('sec'), st.integers(0, 11), st.integers(0, len(SECS) - 1)),
    st.tuples(st.just('move'), st.integers(0, 5), st.sampled_from('xy'), st.integers(-12, 12)),
    st.tuples(st.just('move'), st.integers(0, 5), st.sampled_from('xy'), st.integers(-12, 12)),
    st.tuples(st.just('load'), load()), st.tuples(st.just('load'), load()),
    st.tuples(st.just('combine'), st.integers(0, 3)),
    st.tuples(st.just('hinge'), st.integers(0, 11), st.integers(0, 1)),
    st.tuples(st.just('self'), st.booleans()), st.tuples(st.just('self'), st.booleans()),
    st.tuples(st.just('lcr'), st.integers(0, 11), st.sampled_from([[0.7, 1.0], [1.0, 3.0]])),
    st.tuples(st.just('regen')))
HIST = st.fixed_dictionaries({
    'fr': frames(), 'loads': st.lists(load(), min_size=1, max_size=5),
    'combs': st.lists(st.fixed_dictionaries({'type': st.sampled_from(['ULS', 'SLS', 'ULS']),
                                             'cases': st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True)}),
                      max_size=2),
    'ops': st.lists(OPS, max_size=5), 'method': st.sampled_from(['REM', 'REM', 'ZERO']),
    'int': st.booleans()})


def factor(ltype, comb, lead):
    t = ltype.upper()
    if t == 'DEAD':
        return 1.15 if comb == 'ULS' else 1.0
    return (1.5 if comb == 'ULS' else 1.0) * (1.0 if lead else PSI[t])


class Frame:
    """The frame under test and its specification."""

    def __init__(self, k):
        from metku.raami import frame_loads as fl
        from metku.raami import frame_supports as fs
        from metku.raami.frame_member import SteelFrameMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.raami import Raami
        self.fl = fl
        k = copy.deepcopy(k)
        self.nodes = [list(x) for x in k['fr']['nodes']]
        self.mem = k['fr']['mem']
        self.sup = k['fr']['sup']
        self.secs = [section(m['sec']) for m in self.mem]
        self.repair()
        self.exact = True
        self.loads = []        # {kind, at, v, ..., f, lid}
        self.F = F = Raami('f')
        for x in self.nodes:
            if k.get('int') and all(a == int(a) for a in x):
                x = [int(a) for a in x]
            F.add(FrameNode(x))
        for m, s in zip(self.mem, self.secs):
            kw = {}
            if m['hinge'] and any(m['hinge']):
                kw['hinges'] = [bool(a) for a in m['hinge']]
            if m['lcr']:
                kw['lcr'] = list(m['lcr'])
            F.add(SteelFrameMember([F.nodes[i] for i in m['n']], s, m['type'], nel=m['nel'], **kw))
        for i, t in self.sup:
            F.add({'fix': fs.FixedSupport, 'xy': fs.XYHingedSupport, 'x': fs.XHingedSupport,
                   'y': fs.YHingedSupport}[t](F.nodes[i]))
        self.M = list(F.members.values())
        self.combs = []
        self.selfw = False

    def repair(self):
        for _ in range(len(self.mem) + 1):
            if genframe.stable(self.model([]), 1e5):
                return
            m = next((m for m in self.mem if m['hinge']), None)
            if m is None:
                break
            m['hinge'] = None
        raise Skip('unstable frame')

    # ------------------------------------------------------------ model side
    def model(self, loads):
        nodes = [list(x) for x in self.nodes]
        elems, spans, info = [], [], []
        for m, s in zip(self.mem, self.secs):
            a, b = self.nodes[m['n'][0]], self.nodes[m['n'][1]]
            ids = [m['n'][0]]
            for q in range(1, m['nel']):
                t = q / m['nel']
                ids.append(len(nodes))
                nodes.append([a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])])
            ids.append(m['n'][1])
            bar = m['type'] in ('bar', 'brace')
            first = len(elems)
            for q in range(m['nel']):
                e = {'type': 'rod' if bar else 'beam', 'n': [ids[q], ids[q + 1]], 'E': 210000.0, 'A': float(s.A),
                     'I': float(s.I[0])}
                rel = []
                if m['hinge'] and m['hinge'][0] and q == 0:
                    rel.append(2)
                if m['hinge'] and m['hinge'][1] and q == m['nel'] - 1:
                    rel.append(5)
                if rel and not bar:
                    e['rel'] = rel
                elems.append(e)
            spans.append((first, first + m['nel']))
            info.append(ids)
        self.spans, self.ids = spans, info
        dofs = {'fix': [0, 1, 2], 'xy': [0, 1], 'x': [0], 'y': [1]}
        out = []
        for l in loads:
            if l['kind'] == 'point':
                out.append({'type': 'point', 'case': l['lid'], 'node': l['node'], 'v': l['v'], 'f': l['f']})
                continue
            a, b = spans[l['mem']]
            n = b - a
            for q in range(n):
                if l['kind'] == 'line':
                    v = [l['v'][0] + (l['v'][1] - l['v'][0]) * (q + j) / n for j in (0, 1)]
                else:
                    d = l['div'] * n / 20       # position of the step in elements
                    w = l['v'][0] if q + 1 <= d + 1e-9 else l['v'][1] if q >= d - 1e-9 else max(
                        l['v'], key=abs)
                    v = [w, w]
                out.append({'type': 'line', 'case': l['lid'], 'el': a + q, 'q': v, 'dir': l['dir'], 'coords': l['cs'],
                            'f': l['f']})
        return {'nodes': nodes, 'elems': elems, 'loads': out,
                'supports': [{'sid': 1, 'node': i, 'dofs': dofs[t]} for i, t in self.sup]}

    # --------------------------------------------------------------- actions
    def add_load(self, l):
        fl, F = self.fl, self.F
        l = dict(l)
        kw = {'load_id': l['lid'], 'ltype': l['ltype'], 'f': l['f']}
        if l['name']:
            kw['name'] = l['name']
        beams = [i for i, m in enumerate(self.mem) if m['type'] not in ('bar', 'brace')]
        if l['kind'] == 'point':
            # no moment at nodes of bars only
            ok = sorted({i for b in beams for i in self.mem[b]['n']})
            l['node'] = ok[l['at'] % len(ok)]
            o = fl.PointLoad(F.nodes[l['node']], list(l['v']), **kw)
        else:
            l['mem'] = beams[l['at'] % len(beams)]
            m = self.M[l['mem']]
            if l['kind'] == 'line':
                o = fl.LineLoad(m, list(l['v']), l['dir'], coord_sys=l['cs'], **kw)
            else:
                if abs(l['v'][0]) == abs(l['v'][1]):
                    l['v'][1] = 0
                o = fl.PWLineLoad(m, list(l['v']), l['div'] / 20, l['dir'], coord_sys=l['cs'], **kw)
        if l['case'] and l['lid'] not in F.load_cases:
            F.add(fl.LoadCase(l['lid'], [o]))
        else:
            F.add(o)
        self.loads.append(l)
        return o

    def add_cases(self, ls):
        """Several loads, some of them given together as a load case."""
        fl, F = self.fl, self.F
        first = {}
        for l in ls:
            if l['case'] and l['lid'] not in F.load_cases and l['kind'] == 'point':
                first.setdefault(l['lid'], []).append(l)
        for lid, group in first.items():
            objs = []
            for l in group:
                l = dict(l)
                beams = [i for i, m in enumerate(self.mem) if m['type'] not in ('bar', 'brace')]
                ok = sorted({i for b in beams for i in self.mem[b]['n']})
                l['node'] = ok[l['at'] % len(ok)]
                kw = {'name': l['name']} if l['name'] else {}
                objs.append(fl.PointLoad(F.nodes[l['node']], list(l['v']), ltype=l['ltype'], f=l['f'], **kw))
                self.loads.append(l)
            F.add(fl.LoadCase(lid, objs))
        for l in ls:
            if not any(l is g for group in first.values() for g in group):
                self.add_load(l)

    def add_comb(self, c):
        ids = [i for i in c['cases'] if i in self.F.load_cases]
        if not ids:
            return
        cid = 10 + len(self.combs)
        comb = self.fl.LoadCombination(cid, c['type'], [self.F.load_cases[i] for i in ids])
        self.combs.append((cid, c['type'], ids, comb))
        self.F.add(comb)
        self.combine(len(self.combs) - 1)

    def combine(self, j):
        cid, typ, ids, comb = self.combs[j]
        self.loads = [l for l in self.loads if l['lid'] != cid]
        new = []
        lead = None
        for i in ids:
            first = next(l for l in self.loads if l['lid'] == i)
            if first['ltype'] != 'dead':
                lead = i
                break
        for i in ids:
            for l in self.loads:
                if l['lid'] == i:
                    new.append(dict(l, lid=cid, f=l['f'] * factor(l['ltype'], typ, i == lead)))
        self.loads += new

    def set_self(self, on):
        self.loads = [l for l in self.loads if l['lid'] != SELF]
        if on:
            for i, (m, s) in enumerate(zip(self.mem, self.secs)):
                q = -float(s.A) * 7850e-9 * 9.81
                self.loads.append({'kind': 'line', 'mem': i, 'v': [q, q], 'dir': 'y', 'cs': 'global', 'f': 1.0,
                                   'lid': SELF, 'ltype': 'dead'})
        self.selfw = on

    # --------------------------------------------------------------- verdict
    def analyse(self, method):
        self.F.structural_analysis('ALL', support_method=method)

    def check(self, what):
        import numpy as np
        F = self.F
        lids = {l['lid'] for l in self.loads}
        got = {i for i, c in F.load_cases.items() if c.loads}
        need(got == lids, lambda: f'{what}: load cases {got}, expected {lids}')
        need(len(set(F.load_ids)) == len(F.load_ids) and lids <= set(F.load_ids), lambda: f'{what}: load ids {F.load_ids}')
        for i in lids:
            need(len(F.load_cases[i].loads) == sum(l['lid'] == i for l in self.loads), f'{what}: loads of case {i}')
        need(len(F.loads) == len(self.loads), lambda: f'{what}: {len(F.loads)} loads, expected {len(self.loads)}')
        rtol = 1e-5 if self.exact else 1e-3
        W = 0
        for m, s, M in zip(self.mem, self.secs, self.M):
            a, b = (np.array(self.nodes[i], dtype=float) for i in m['n'])
            L = np.linalg.norm(b - a)
            W += L * s.A * 7850e-9
            check_close(M.length(), L, f'{what}: length', 1e-9)
            need(M.cross_section is s, f'{what}: cross-section')
        check_close(F.weight(), W, f'{what}: weight', 1e-6)
        mod = self.model(self.loads)
        ref = refframe.Frame2D(mod)
        ff = ref.factor(1)
        if ff is None or ff[2] > 1e7:
            raise Skip('nearly unstable')
        rtol = max(rtol, 1e-12 * ff[2])
        for lid in sorted(lids):
            u = ref.solve(lid, 1)
            R = ref.end_forces(u, lid)
            Lc = max(i['L'] for i in ref.info)
            Fs = max(max(np.abs(r[[0, 1, 3, 4]]).max() for r in R), 1.0)
            Ms = max(max(np.abs(r[[2, 5]]).max() for r in R), 1e3)
            Fs = max(Fs, Ms / Lc)
            Ms = max(Ms, Fs * Lc)
            ds = np.abs(u[:3 * len(mod['nodes'])].reshape(-1, 3)[:, :2]).max()
            for j, (m, M) in enumerate(zip(self.mem, self.M)):
                w = f'{what}: case {lid}, member {j}: '
                a, b = self.spans[j]
                if m['type'] in ('bar', 'brace'):
                    N, V, My = [R[a][3]] * 2, [0, 0], [0, 0]
                else:
                    N = [-R[q][0] for q in range(a, b)] + [R[b - 1][3]]
                    V = [R[q][1] for q in range(a, b)] + [-R[b - 1][4]]
                    My = [-R[q][2] for q in range(a, b)] + [R[b - 1][5]]
                f = M.nodal_forces[lid]
                check_vec(f['N'], N, w + 'axial force', 0, rtol * Fs * 4)
                check_vec(f['Vz'], V, w + 'shear force', 0, rtol * Fs * 4)
                check_vec(f['My'], My, w + 'bending moment', 0, rtol * Ms * 4)
                for got, vals, name in ((M.NEd, f['N'], 'NEd'), (M.VzEd, f['Vz'], 'VzEd'), (M.MyEd, f['My'], 'MyEd')):
                    big = max(abs(v) for v in vals)
                    need(abs(got[lid]) == big and got[lid] in vals, w + name)
                d = M.nodal_displacements[lid]
                for q, i in enumerate(self.ids[j]):
                    check_vec(d[q][:2], u[3 * i:3 * i + 2], w + 'displacement', 0, rtol * ds + 1e-9)
                self.design(w, m, M, lid)

    def design(self, w, m, M, lid):
        from metku.structures.steel.steel_member import SteelMember
        S = SteelMember(M.cross_section, M.length(), Lcr=list(m['lcr'] or [1.0, 1.0]), mtype=m['type'])
        f = M.nodal_forces[lid]
        for q in range(m['nel'] + 1):
            S.add_section(loc=q / m['nel'], ned=f['N'][q], vzed=f['Vz'][q], myed=f['My'][q])
        check_close(M.utilization[lid], S.design(sway=False), w + 'utilisation', 1e-9, 1e-12)

    def do(self, op):
        """Returns True when the model must be generated again."""
        t = op[0]
        if t == 'sec':
            i = op[1] % len(self.mem)
            self.secs[i] = self.M[i].cross_section = section(op[2])
            return False
        if t == 'move':
            i = op[1] % len(self.nodes)
            c = 0 if op[2] == 'x' else 1
            v = self.nodes[i][c] + op[3] * 37.5
            old = self.nodes[i][c]
            self.nodes[i][c] = v
            if any(((self.nodes[a][0] - self.nodes[b][0]) ** 2 + (self.nodes[a][1] - self.nodes[b][1]) ** 2) < 250e3
                   for a, b in (m['n'] for m in self.mem)):
                self.nodes[i][c] = old
                return False
            setattr(self.F.nodes[i], op[2], v)
            self.exact = False
            return False
        if t == 'load':
            self.add_load(op[1])
        elif t == 'combine':
            if self.combs:
                j = op[1] % len(self.combs)
                if all(any(l['lid'] == i for l in self.loads) for i in self.combs[j][2]):
                    self.combs[j][3].combine_loads()
                    self.combine(j)
        elif t == 'hinge':
            i = op[1] % len(self.mem)
            m = self.mem[i]
            if m['type'] in ('bar', 'brace'):
                return False
            old = m['hinge']
            m['hinge'] = list(old or [0, 0])
            m['hinge'][op[2]] = 1
            if not genframe.stable(self.model([]), 1e5):
                m['hinge'] = old
                return False
            self.M[i].add_hinge(op[2])
        elif t == 'self':
            if any(m['type'] in ('bar', 'brace') for m in self.mem):
                return False
            if op[1]:
                self.F.add_self_weight()
            else:
                self.F.remove_self_weight()
            self.set_self(op[1])
            if not self.loads:
                raise Skip('no loads')
        elif t == 'lcr':
            i = op[1] % len(self.mem)
            self.mem[i]['lcr'] = op[2]
            self.M[i].lcr = list(op[2])
            return False
        return True


@CHECK.clause('history', HIST, quick=500, thorough=15000, rule='forces, displacements, weight and utilisation of '
              'every member in every load case and combination, after every modification')
def history(k):
    F = Frame(k)
    F.add_cases(k['loads'])
    for c in k['combs']:
        F.add_comb(c)
    F.F.generate_fem()
    F.analyse(k['method'])
    F.check('first')
    for op in k['ops']:
        if F.do(op):
            F.F.generate_fem()
        F.analyse(k['method'])
        F.check(op[0])
    return len(F.mem) > 1 and (len(k['ops']) > 0 or len(F.F.load_cases) > 1)


@CHECK.clause('envelope', st.fixed_dictionaries({
    'n': st.integers(1, 6), 'vals': st.lists(st.lists(st.integers(-9, 9), min_size=21, max_size=21), min_size=1, max_size=4),
    'sub': st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True)),
    'shift': st.integers(-20, 20)}), quick=1000, thorough=20000, rule='largest and smallest forces over load cases')
def envelope(k):
    from metku.raami.frame_member import SteelFrameMember
    from metku.raami.frame_node import FrameNode
    from metku.raami.raami import Raami
    F = Raami('f')
    m = SteelFrameMember([FrameNode([0, 0]), FrameNode([1000.0, 0])], section(0))
    F.add(m)
    n = k['n']
    for c, v in enumerate(k['vals']):
        F.load_ids.append(c)
        m.nodal_forces[c] = {key: [float(a + k['shift']) for a in v[7 * i:7 * i + n]]
                             for i, key in enumerate(('N', 'Vz', 'My'))}
    ids = F.load_ids if k['sub'] is None else [i for i in k['sub'] if i < len(k['vals'])]
    if not ids:
        raise Skip('no cases')
    r = m.get_max_forces() if k['sub'] is None else m.get_max_forces(ids)
    for key in ('N', 'Vz', 'My'):
        for fn in (min, max):
            best = fn(fn(m.nodal_forces[c][key]) for c in ids)
            q = r[f'{fn.__name__} {key}']
            need(q[key] == best, lambda: f'{fn.__name__} {key}: {q[key]}, expected {best}')
            need(any(all(m.nodal_forces[q['load_id']][z][j] == q[z] for z in ('N', 'Vz', 'My')) for j in range(n)),
                 'forces do not act together')
    return len(ids) > 1 and n > 1


# ------------------------------------------------------------------ geometry
@CHECK.clause('member', st.fixed_dictionaries({
    'a': st.tuples(st.integers(-9000, 9000), st.integers(-9000, 9000)),
    'b': st.tuples(st.integers(-9000, 9000), st.integers(-9000, 9000)), 't': U, 'off': st.floats(-500, 500),
    'nel': st.integers(1, 6), 'how': st.integers(0, 3), 'z': st.integers(-5000, 5000), 'd3': st.booleans(),
    'mv': st.floats(-3000, 3000), 'c': st.integers(0, 2)}), quick=1500, thorough=20000,
    rule='local and global coordinates, direction, angle and nodes of a member, before and after moving a node')
def member(k):
    import math

    import numpy as np
    from metku.raami.frame_member import FrameMember, SteelFrameMember
    from metku.raami.frame_node import FrameNode
    from metku.raami.raami import Raami
    a, b = list(k['a']), list(k['b'])
    if k['d3']:
        a, b = a + [0], b + [k['z']]
    if math.dist(a, b) < 300:
        raise Skip('short member')

    def node(x):
        return [lambda: FrameNode(x), lambda: FrameNode(*x), lambda: FrameNode(np.array(x)),
                lambda: FrameNode(tuple(float(v) for v in x))][k['how']]()
    n1, n2 = node(a), node(b)
    F = Raami('f')
    F.dim = 3 if k['d3'] else 2
    F.add(n1)
    F.add(n2)
    M = (SteelFrameMember if k['how'] else FrameMember)([n1, n2], section(1), nel=k['nel'])
    F.add(M)
    for step in range(2):
        A, B = np.array(a, dtype=float), np.array(b, dtype=float)
        L = float(np.linalg.norm(B - A))
        if L < 100:
            return False
        e = (B - A) / L
        check_close(M.length(), L, 'length', 1e-9)
        check_vec(M.dir_vector, e, 'direction', 0, 1e-9)
        p = A + k['t'] * (B - A)
        check_vec(M.local_to_global(k['t']), p, 'point of the member', 0, 1e-6)
        check_close(M.global_to_local(p), k['t'], 'local coordinate', 0, 1e-9)
        if not k['d3']:
            nrm = np.array(M.perpendicular)
            check_close(nrm @ e, 0, 'perpendicular', 0, 1e-9)
            check_close(np.linalg.norm(nrm), 1, 'perpendicular', 1e-9)
            check_close(M.global_to_local(p + k['off'] * nrm), k['t'], 'local coordinate of a point beside', 0, 1e-9)
            ang = math.atan2(e[1], e[0]) % math.pi
            d = abs(M.angle - ang) % math.pi
            need(min(d, math.pi - d) < 1e-6 and -1e-9 <= M.angle <= math.pi + 1e-9, f'angle {M.angle}, expected {ang}')
        need(M.opposite_node(n1) is n2 and M.opposite_node(n2) is n1, 'opposite node')
        check_close(M.weight(), L * M.cross_section.A * 7850e-9, 'weight', 1e-6)
        need(len(M.global_node_coords) == k['nel'] + 1, 'number of nodes')
        for q, x in enumerate(M.global_node_coords):
            check_vec(x, A + q / k['nel'] * (B - A), 'nodes of the member', 0, 1e-6)
        if step == 0:
            F.generate_fem()
        need(len(M.fem_nodes) == k['nel'] + 1 and len(M.fem_elements) == k['nel'], 'finite elements')
        for q, x in enumerate(M.fem_nodes):
            check_vec(x.coord, A + q / k['nel'] * (B - A), 'finite element nodes', 0, 1e-6)
        if k['how']:
            check_close(M.member.length, L, 'length of the steel member', 1e-9)
        c = 'xyz'[k['c'] if k['d3'] else k['c'] % 2]
        b['xyz'.index(c)] += k['mv']
        setattr(n2, c, b['xyz'.index(c)])
    return abs(k['mv']) > 1


@CHECK.clause('symmetry', st.fixed_dictionaries({
    'pts': st.lists(st.tuples(st.integers(0, 6), st.integers(0, 4)), min_size=2, max_size=6, unique=True),
    'edges': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.booleans()), min_size=1, max_size=6),
    'mid': st.sampled_from([0, 1000, -700]), 'given': st.booleans(), 'perm': st.integers(0, 10**6),
    'cross': st.booleans(), 'fem': st.sampled_from([True, True, False])}), quick=600, thorough=8000, rule='symmetry pairs of nodes and members of mirrored frames')
def symmetry(k):
    from metku.raami.frame_member import SteelFrameMember
    from metku.raami.frame_node import FrameNode
    from metku.raami.raami import Raami
    mid = float(k['mid'])
    rnd = random.Random(k['perm'])
    pos = set()
    pts = [tuple(p) for p in k['pts']]
    for x, y in pts:
        pos |= {(x, y), (-x, y)}
    pos = sorted(pos)
    edges = set()
    for i, j, side in k['edges']:
        p, q = pts[i % len(pts)], pts[j % len(pts)]
        if side and k['cross']:
            q = (-q[0], q[1])
        if p != q:
            edges.add(frozenset((p, q)))
            edges.add(frozenset(((-p[0], p[1]), (-q[0], q[1]))))
    edges = [sorted(e) for e in edges]
    if not edges:
        raise Skip('no members')
    edges.sort()
    rnd.shuffle(edges)
    rnd.shuffle(pos)
    F = Raami('f')
    at = {}
    for p in pos:
        at[p] = FrameNode([mid + 900.0 * p[0], 1000.0 * p[1]])
        F.add(at[p])
    where = {id(n): p for p, n in at.items()}
    for p, q in edges:
        if rnd.random() < 0.5:
            p, q = q, p
        F.add(SteelFrameMember([at[p], at[q]], section(0)))
    F.symmetry(sym_value=mid if k['given'] else None)
    for p, n in at.items():
        if p[0] == 0:
            need(n.symmetry_node in (None, n), 'a node of the axis has a symmetry node')
        else:
            need(n.symmetry_node is at[(-p[0], p[1])], f'symmetry node of {n}: {n.symmetry_node}')
    some = False
    byends = {frozenset(where[id(n)] for n in m.nodes): m for m in F.members.values()}
    for e, m in byends.items():
        w = byends[frozenset((-p[0], p[1]) for p in e)]
        if w is m:
            need(m.symmetry_pair in (None, m), 'a member symmetric with itself has a pair')
        else:
            some = True
            need(m.symmetry_pair is w, f'symmetry pair of {m}')
    m = F.members[0]
    s = section(4)
    if k['fem']:
        F.generate_fem()
    m.cross_section = s
    if not k['fem']:
        F.generate_fem()
    for x in F.members.values():
        need(x.fem_elements and all(e.section is x.cross_section for e in x.fem_elements), 'cross-section of the elements')
    for x in F.members.values():
        if x is m or x is m.symmetry_pair:
            need(x.cross_section is s and x.member.profile is s, 'cross-section of the pair')
        else:
            need(x.cross_section is not s, 'cross-section of another member')
    return some and len(F.members) > 2


@CHECK.clause('robot', st.fixed_dictionaries({'fr': frames(), 'name': st.sampled_from(['Raami', 'kehä', 'f1', 'a_b'])}),
              quick=150, thorough=3000, rule='the exported file describes the same frame')
def robot(k):
    for m in k['fr']['mem']:
        if SECS[m['sec']][0] == 'CHS':
            m['sec'] = 0
    F = Frame(k)
    d = tempfile.mkdtemp(prefix='vp_robot_')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        F.F.to_robot(k['name'])
        files = os.listdir(d)
        need(files == [k['name'] + '.str'], f'files {files}')
        lines = [x.strip() for x in open(files[0], encoding=None).read().splitlines()]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
    heads = ['NODes', 'ELEments', 'PROperties', 'SUPports', 'RELeases', 'END']
    blocks, cur = {h: [] for h in heads}, None
    for x in lines:
        if x.startswith('NODes') and 'ELEments' in x:
            w = x.split()
            need(int(w[1]) == len(F.nodes) and int(w[3]) == len(F.mem), 'counts')
        elif x in heads:
            cur = x
        elif cur and x and not x.startswith(';'):
            blocks[cur].append(x)
    need(lines[-1] == 'END', 'end of file')
    nodes = {}
    for x in blocks['NODes']:
        w = x.split()
        nodes[int(w[0])] = [float(v) for v in w[1:]]
    need(len(nodes) == len(F.nodes), 'nodes')
    for i, p in enumerate(F.nodes):
        check_vec(nodes[i + 1], p, 'coordinates', 0, 1e-6)
    el = {int(x.split()[0]): [int(v) - 1 for v in x.split()[1:]] for x in blocks['ELEments']}
    need(el == {i + 1: list(m['n']) for i, m in enumerate(F.mem)}, 'elements')
    pr = blocks['PROperties']
    need(len(pr) == 2 * len(F.mem), 'properties')
    for i, s in enumerate(F.secs):
        need('S355' in pr[2 * i], 'material')
        w = pr[2 * i + 1].split(None, 1)
        need(int(w[0]) == i + 1 and w[1] == s.robot().strip(), 'section')
    free = {'fix': '', 'xy': 'RY', 'x': 'UZ, RY', 'y': 'UX, RY'}
    need(sorted(x.split(None, 1) for x in blocks['SUPports']) == sorted(
        [str(i + 1), free[t]] if free[t] else [str(i + 1)] for i, t in F.sup), 'supports')
    rel = {}
    for x in blocks['RELeases']:
        w = x.split(None, 2)
        rel[int(w[1])] = ('ORIgin RY' in w[2], w[2].endswith('END RY'))
    need(rel == {i + 1: (bool(m['hinge'][0]), bool(m['hinge'][1])) for i, m in enumerate(F.mem)
                 if m['hinge'] and any(m['hinge'])}, 'releases')
    return len(F.mem) > 2


@CHECK.clause('pinned', st.fixed_dictionaries({'t': gentruss.trusses(), 'steel': st.booleans(), 'new': st.lists(st.tuples(st.integers(0, 20), st.integers(0, 6)), max_size=2)}),
              quick=400, thorough=8000, rule='several load cases or a statically indeterminate truss')
def pinned(k):
    """SimpleTruss of Raami: forces, displacements, statics matrix and utilisation"""
    import numpy as np
    from metku.raami import frame_loads as fl, frame_supports as fs
    from metku.raami.raami_simple_truss import SimpleTruss
    from metku.structures.steel.steel_member import SteelMember
    t = k['t']
    if gentruss.same_line(t):
        raise Skip('nodes on members')

    def sec(i):
        import importlib
        p = gentruss.PROF[i]
        return getattr(importlib.import_module('metku.sections.steel.' + {'SHS': 'RHS', 'IPE': 'ISection', 'HEA': 'ISection'}.get(p[0], p[0])), p[0])(*p[1:])
    if len({i for m in t['mem'] for i in m}) < len(t['X']):
        raise Skip('loose node')
    T = SimpleTruss([list(x) for x in t['X']], [list(m) for m in t['mem']], [sec(i) for i in t['prof']], truss_type='steel' if k['steel'] else 'general')
    for a, s in t['sup']:
        T.add({'xy': fs.XYHingedSupport, 'x': fs.XHingedSupport, 'y': fs.YHingedSupport}[s](T.nodes[a]))
    for i, l in enumerate(t['loads']):
        T.add(fl.PointLoad(T.nodes[l['n']], [*l['v'], 0], load_id=l['case'], f=l['f'], name=f'p{i}'))
    M = list(T.members.values())
    need(len(M) == len(t['mem']) and len(T.nodes) == len(t['X']), 'members and nodes')
    gentruss.Reference(t, [m.cross_section.A for m in M])
    T.generate_fem()
    cases = sorted({l['case'] for l in t['loads']})
    nt = False
    for step in range(2):
        ref = gentruss.Reference(t, [m.cross_section.A for m in M])
        T.calculate('ALL', t['method'], design=k['steel'])
        for c in cases:
            u, N = ref.solve(c)
            big = max(max(map(abs, N)), max(map(abs, ref.load(c))))
            for q, (m, w) in enumerate(zip(M, N)):
                check_close(m.NEd[c], w, f'force of member {q} in case {c}', rtol=1e-5, atol=1e-5 * big)
                d = m.nodal_displacements[c]
                for i, n in zip((0, -1), t['mem'][q]):
                    check_vec(d[i][:2], u[2 * n:2 * n + 2], f'displacement in case {c}', rtol=1e-5, atol=1e-5 * max(map(abs, u)))
                if k['steel']:
                    S = SteelMember(m.cross_section, m.length(), Lcr=[1.0, 1.0], mtype='bar')
                    for loc in (0, 1):
                        S.add_section(loc=loc, ned=float(w))
                    m.design(c)
                    check_close(m.utilization[c], S.design(sway=False), f'utilisation of member {q}', rtol=1e-4, atol=1e-4)
            F = T.fem.statics_matrix() @ np.array([next(w for m, w in zip(M, N) if e in m.fem_elements) for e in T.fem.elements])
            check_vec(F, np.delete(T.fem.global_load_vector(c), T.fem.supp_dofs), 'equilibrium by the statics matrix', rtol=1e-5, atol=1e-5 * big + 1e-6)
        nt = nt or len(cases) > 1 or len(t['mem']) > len(ref.free)
        check_close(T.weight(), sum(m.cross_section.A * L * 7850e-9 for m, L in zip(M, ref.L)), 'weight', rtol=1e-6)
        for i, p in k['new']:
            M[i % len(M)].cross_section = sec(p)
    return nt
