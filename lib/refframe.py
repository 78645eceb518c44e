"""Independent reference solver for plane and space frames.

Element matrices come from Gauss integration of the strain energy over the
Hermite/linear shape functions; hinges and semi-rigid ends are explicit extra
unknowns (no static condensation), so the formulation differs from the
library's closed-form matrices.
"""
import numpy as np

_XG, _WG = np.polynomial.legendre.leggauss(6)


def beam_k(E, A, I, L):
    k = np.zeros((6, 6))
    for x, w in zip(_XG, _WG):
        s = 0.5 * (x + 1)
        J = 0.5 * L * w
        b = np.array([-6 + 12 * s, (-4 + 6 * s) * L, 6 - 12 * s,
                      (-2 + 6 * s) * L]) / L ** 2
        k[np.ix_([1, 2, 4, 5], [1, 2, 4, 5])] += E * I * np.outer(b, b) * J
        a = np.array([-1, 1]) / L
        k[np.ix_([0, 3], [0, 3])] += E * A * np.outer(a, a) * J
    return k


def beam_kg(N, L):
    """Geometric stiffness: N * int v'^2."""
    k = np.zeros((6, 6))
    for x, w in zip(_XG, _WG):
        s = 0.5 * (x + 1)
        J = 0.5 * L * w
        d = np.array([(-6 * s + 6 * s * s) / L, 1 - 4 * s + 3 * s * s,
                      (6 * s - 6 * s * s) / L, -2 * s + 3 * s * s])
        k[np.ix_([1, 2, 4, 5], [1, 2, 4, 5])] += N * np.outer(d, d) * J
    return k


def beam_load(qx, qy, L):
    """Work-equivalent loads of local line loads varying linearly."""
    p = np.zeros(6)
    for x, w in zip(_XG, _WG):
        s = 0.5 * (x + 1)
        J = 0.5 * L * w
        ax = qx[0] + (qx[1] - qx[0]) * s
        ay = qy[0] + (qy[1] - qy[0]) * s
        N = np.array([1 - 3 * s ** 2 + 2 * s ** 3, (s - 2 * s ** 2 + s ** 3) * L,
                      3 * s ** 2 - 2 * s ** 3, (-s ** 2 + s ** 3) * L])
        p[[1, 2, 4, 5]] += ay * N * J
        p[[0, 3]] += ax * np.array([1 - s, s]) * J
    return p


def rot(c, s):
    T = np.zeros((6, 6))
    R = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])
    T[:3, :3] = R
    T[3:, 3:] = R
    return T


class Frame2D:
    """model: dict with nodes, elems, supports, loads (see checks/F01)."""

    def __init__(self, model):
        self.m = model
        self.n = len(model['nodes'])
        self.X = np.array(model['nodes'], dtype=float)
        self.extra = 3 * self.n
        self.info = []
        for e in model['elems']:
            i, j = e['n']
            d = self.X[j] - self.X[i]
            L = float(np.hypot(*d))
            if model.get('round'):      # lengths as rounded as the coordinates (to judge what rounding does)
                L = round(L, model['round'])
            c, s = d / L
            inf = {'L': L, 'c': c, 's': s, 'i': i, 'j': j, 'free': []}
            if e['type'] == 'beam':
                free = list(e.get('rel', []))
                r = e.get('rot')
                if r:           # None: rigid end
                    free += [f for f, kr in zip((2, 5), r) if kr is not None]
                for f in free:
                    inf['free'].append((f, self.extra))
                    self.extra += 1
            self.info.append(inf)
        self.size = self.extra

    def B(self, e, inf):
        """local end displacements from all unknowns"""
        T = rot(inf['c'], inf['s'])
        B = np.zeros((6, self.size))
        B[:, 3 * inf['i']:3 * inf['i'] + 3] = T[:, :3]
        B[:, 3 * inf['j']:3 * inf['j'] + 3] += T[:, 3:]
        for f, x in inf['free']:
            B[f, :] = 0
            B[f, x] = 1
        return B

    def stiffness(self):
        K = np.zeros((self.size, self.size))
        for e, inf in zip(self.m['elems'], self.info):
            B = self.B(e, inf)
            if e['type'] == 'beam':
                k = beam_k(e['E'], e['A'], e['I'], inf['L'])
                K += B.T @ k @ B
                ks = [kr for kr in e.get('rot') or () if kr is not None]
                if ks:
                    for (f, x), kr in zip(inf['free'][-len(ks):], ks):
                        node = inf['i'] if f == 2 else inf['j']
                        g = np.zeros(self.size)
                        g[x] = 1
                        g[3 * node + 2] = -1
                        K += kr * np.outer(g, g)
            else:
                ka = e['k'] if e['type'] == 'spring' else \
                    e['E'] * e['A'] / inf['L']
                b = B[3] - B[0]
                K += ka * np.outer(b, b)
        return K

    def local_load(self, e, inf, case):
        p = np.zeros(6)
        for l in self.m['loads']:
            if l['type'] != 'line' or l['case'] != case:
                continue
            if self.m['elems'][l['el']] is not e:
                continue
            f = l.get('f', 1.0)
            q = np.array(l['q'], dtype=float) * f
            if l.get('coords', 'global') == 'local':
                v = np.array([1.0, 0]) if l['dir'] == 'x' else np.array([0, 1.0])
            else:
                g = np.array([1.0, 0]) if l['dir'] == 'x' else np.array([0, 1.0])
                v = np.array([inf['c'] * g[0] + inf['s'] * g[1],
                              -inf['s'] * g[0] + inf['c'] * g[1]])
            p += beam_load(q * v[0], q * v[1], inf['L'])
        return p

    def load(self, case):
        p = np.zeros(self.size)
        for l in self.m['loads']:
            if l['type'] == 'point' and l['case'] == case:
                i = l['node']
                p[3 * i:3 * i + 3] += np.array(l['v'], dtype=float) \
                    * l.get('f', 1.0)
        for e, inf in zip(self.m['elems'], self.info):
            if e['type'] == 'beam':
                p += self.B(e, inf).T @ self.local_load(e, inf, case)
        return p

    def fixed(self, sid):
        fx = set()
        for s in self.m['supports']:
            if s['sid'] == sid:
                fx |= {3 * s['node'] + d for d in s['dofs']}
        has_rot = set()
        for e in self.m['elems']:
            if e['type'] == 'beam':
                has_rot |= set(e['n'])
        for i in range(self.n):
            if i not in has_rot:
                fx.add(3 * i + 2)
        return fx

    def factor(self, sid):
        fx = self.fixed(sid)
        free = np.array([i for i in range(self.size) if i not in fx], dtype=int)
        if len(free) == 0:
            return None
        K = self.stiffness()
        Kf = K[np.ix_(free, free)]
        d = np.sqrt(np.abs(np.diag(Kf)))
        if np.any(d <= 0):
            return None
        Ks = Kf / np.outer(d, d)
        w = np.linalg.eigvalsh(Ks)
        if w[0] <= 0:
            return None
        return free, Kf, w[-1] / w[0]

    def solve(self, case, sid):
        free, Kf, cond = self.factor(sid)
        p = self.load(case)
        u = np.zeros(self.size)
        u[free] = np.linalg.solve(Kf, p[free])
        return u

    def end_forces(self, u, case):
        """per element (R[6]) end forces in local axes, acting on the element"""
        out = []
        for e, inf in zip(self.m['elems'], self.info):
            d = self.B(e, inf) @ u
            if e['type'] == 'beam':
                k = beam_k(e['E'], e['A'], e['I'], inf['L'])
                R = k @ d - self.local_load(e, inf, case)
            else:
                ka = e['k'] if e['type'] == 'spring' else \
                    e['E'] * e['A'] / inf['L']
                N = ka * (d[3] - d[0])
                R = np.array([-N, 0, 0, N, 0, 0])
            out.append(R)
        return out

    def geometric(self, R):
        """geometric stiffness with the axial force at the second end"""
        K = np.zeros((self.size, self.size))
        for e, inf, r in zip(self.m['elems'], self.info, R):
            B = self.B(e, inf)
            N = r[3]
            if e['type'] == 'beam':
                K += B.T @ beam_kg(N, inf['L']) @ B
            else:
                b = B[4] - B[1]
                K += N / inf['L'] * np.outer(b, b)
        return K


# ---------------------------------------------------------------- space frame
def beam3_k(E, G, A, Iy, Iz, J, L):
    """local axes: x along, y, z; Iy: bending in the x-z plane"""
    k = np.zeros((12, 12))
    k2 = beam_k(E, A, Iz, L)          # plane x-y: uy, rz
    a = [0, 1, 5, 6, 7, 11]
    k[np.ix_(a, a)] += k2
    k3 = beam_k(E, 0.0, Iy, L)        # plane x-z: uz, ry = -duz/dx
    b = [0, 2, 4, 6, 8, 10]
    S = np.diag([1, 1, -1, 1, 1, -1.0])
    k[np.ix_(b, b)] += S @ k3 @ S
    t = G * J / L
    k[np.ix_([3, 9], [3, 9])] += t * np.array([[1, -1], [-1, 1.0]])
    return k
