"""Pin-jointed plane trusses: generator and reference solution."""
import math

import numpy as np
from hypothesis import strategies as st

from lib.harness import Skip

PROF = [('SHS', 50, 3), ('SHS', 100, 5), ('RHS', 120, 60, 4), ('CHS', 88.9, 4), ('IPE', 160), ('HEA', 140), ('SHS', 200, 8)]


@st.composite
def trusses(draw):
    off = st.sampled_from([0, 0, 130, -270, 333.3])
    cells = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)), min_size=3, max_size=8, unique=True))
    X = [[i * 2000 + draw(off), j * 1700 + draw(off)] for i, j in cells]
    n = len(X)
    pairs = []
    # every node after the second one is joined to two earlier ones, and some pairs more
    for q in range(1, n):
        for p in draw(st.lists(st.integers(0, q - 1), min_size=min(q, 2), max_size=3, unique=True)):
            pairs.append([q, p] if draw(st.booleans()) else [p, q])
    for _ in range(draw(st.integers(0, 4))):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if a != b and [a, b] not in pairs and [b, a] not in pairs:
            pairs.append([a, b])
    pairs = draw(st.permutations(pairs))
    sup = {draw(st.integers(0, n - 1)): 'xy'}
    for _ in range(draw(st.integers(1, 3))):
        sup.setdefault(draw(st.integers(0, n - 1)), draw(st.sampled_from(['xy', 'x', 'y'])))
    P = st.sampled_from([0, 1e4, -5e4, 2.5e5, -1.2e5])
    loads = [{'n': draw(st.integers(0, n - 1)), 'v': [draw(P), draw(P)], 'case': draw(st.sampled_from([0, 0, 1, 3])),
              'f': draw(st.sampled_from([1.0, 1.0, 1.35]))} for _ in range(draw(st.integers(1, 4)))]
    return {'X': X, 'mem': pairs, 'prof': [draw(st.integers(0, len(PROF) - 1)) for _ in pairs], 'sup': sorted([a, b] for a, b in sup.items()),
            'loads': loads, 'method': draw(st.sampled_from(['REM', 'ZERO']))}


class Reference:
    def __init__(self, k, A, E=210e3, X=None):
        X = np.array(k['X'] if X is None else X, float)
        self.k, self.A, self.E = k, A, E
        n = len(X)
        self.C = np.zeros((2 * n, len(k['mem'])))       # equilibrium matrix
        self.L = []
        for q, (a, b) in enumerate(k['mem']):
            d = X[b] - X[a]
            self.L.append(float(np.hypot(*d)))
            c = d / self.L[-1]
            self.C[2 * a:2 * a + 2, q] = -c
            self.C[2 * b:2 * b + 2, q] = c
        fixed = [2 * a + i for a, s in k['sup'] for i in (0, 1) if 'xy'[i] in s]
        self.free = [i for i in range(2 * n) if i not in fixed]
        B = self.C[self.free]
        self.kk = np.array([E * a / l for a, l in zip(A, self.L)])
        K = B @ (self.kk[:, None] * B.T)
        if len(self.free) == 0 or np.linalg.cond(K) > 1e7:
            raise Skip('unstable')
        self.K = K

    def load(self, case):
        p = np.zeros(self.C.shape[0])
        for l in self.k['loads']:
            if l['case'] == case:
                p[2 * l['n']:2 * l['n'] + 2] += np.array(l['v']) * l['f']
        return p

    def solve(self, case):
        u = np.zeros(self.C.shape[0])
        u[self.free] = np.linalg.solve(self.K, self.load(case)[self.free])
        return u, self.kk * (self.C.T @ u)


def same_line(k):
    """Overlapping members or nodes on members: other structures than these are meant."""
    X = k['X']
    for q, (a, b) in enumerate(k['mem']):
        d = [X[b][i] - X[a][i] for i in (0, 1)]
        L = math.hypot(*d)
        if L < 300:
            return True
        for j, x in enumerate(X):
            if j in (a, b):
                continue
            w = [x[i] - X[a][i] for i in (0, 1)]
            if abs(w[0] * d[1] - w[1] * d[0]) / L < 60 and -60 < (w[0] * d[0] + w[1] * d[1]) / L < L + 60:
                return True
    return any(math.dist(X[i], X[j]) < 300 for i in range(len(X)) for j in range(i))
