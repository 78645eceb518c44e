"""P01: cold-formed members: open thin-walled sections, Z/C profiles, EN 1993-1-3 resistances."""
import math

import numpy as np
from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, need

CHECK = Check('P01', 'walls of several thicknesses, or a branch of the standard away from its limits',
              ['unbranched open sections', 'gross properties of Z and C profiles', 'bearing of webs: hw/t up to 200, r/t up to 6'])
XG, WG = np.polynomial.legendre.leggauss(4)


class Thin:
    """chain of walls; everything from the shear flow or from integration along the walls"""

    def __init__(self, P, t):
        self.P = np.array(P, float)
        self.t = np.array(t, float)
        self.L = np.linalg.norm(np.diff(self.P, axis=0), axis=1)
        self.A = float(sum(self.L * self.t))
        self.c = self.integ(lambda i, s, p: p) / self.A
        Q = self.P - self.c
        self.Q = Q
        m = self.integ(lambda i, s, p: np.outer(p - self.c, p - self.c).ravel())
        self.Iz, self.Iyz, _, self.Iy = m
        self.It = float(sum(self.L * self.t ** 3 / 3))

    def integ(self, f):
        tot = 0
        for i in range(len(self.t)):
            for x, w in zip(XG, WG):
                s = 0.5 * (1 + x)
                tot = tot + 0.5 * w * self.L[i] * self.t[i] * np.asarray(f(i, s, self.P[i] + s * (self.P[i + 1] - self.P[i])))
        return tot

    def shear_centre(self):
        """the moments of the shear flows of unit forces in the two directions"""
        D = self.Iy * self.Iz - self.Iyz ** 2
        out = []
        for V in ((0, 1.0), (1.0, 0)):      # (Vy, Vz)
            Vy, Vz = V
            # sigma' = a y + b z with the moments' derivatives Vz (Iy part) and Vy
            a = (Vy * self.Iy - Vz * self.Iyz) / D
            b = (Vz * self.Iz - Vy * self.Iyz) / D
            S, M = 0.0, 0.0
            for i in range(len(self.t)):
                p, q = self.Q[i], self.Q[i + 1]
                d = q - p
                arm = p[0] * d[1] - p[1] * d[0]         # r x d, d = length of the wall
                L, t = self.L[i], self.t[i]
                # flow along the wall: S + integral (a y + b z) t ds
                f = lambda s: S + t * L * ((a * p[0] + b * p[1]) * s + (a * d[0] + b * d[1]) * s * s / 2)
                M -= sum(0.5 * w * f(0.5 * (1 + x)) for x, w in zip(XG, WG)) * arm
                S = f(1.0)
            out.append(M)
        # force V in direction z at distance y of the centroid turns by  y Vz - z Vy
        return self.c[0] + out[0], self.c[1] - out[1]

    def warping(self, sc):
        w = [0.0]
        for p, q in zip(self.P[:-1] - sc, self.P[1:] - sc):
            w.append(w[-1] + p[0] * q[1] - q[0] * p[1])
        w = np.array(w)
        f = lambda i, s: w[i] + s * (w[i + 1] - w[i])
        m = self.integ(lambda i, s, p: f(i, s)) / self.A
        return float(self.integ(lambda i, s, p: (f(i, s) - m) ** 2))


def compare(prof, R, sc=True, tol=1e-8, what=''):
    size = max(np.ptp(R.P[:, 0]), np.ptp(R.P[:, 1]))
    far = size + abs(R.P).max()
    I = R.Iy + R.Iz
    rel = tol * (far / size) ** 2
    check_close(prof.area(), R.A, what + 'area', rtol=rel)
    y, z, A = prof.centroid()
    check_close(y, R.c[0], what + 'centroid y', rtol=0, atol=rel * far)
    check_close(z, R.c[1], what + 'centroid z', rtol=0, atol=rel * far)
    for a, b in zip(prof.second_moments_gc(), (R.Iy, R.Iz)):
        check_close(a, b, what + 'second moment', rtol=0, atol=rel * I)
    check_close(prof.Iy(), R.Iy, what + 'Iy', rtol=0, atol=rel * I)
    check_close(prof.Iz(), R.Iz, what + 'Iz', rtol=0, atol=rel * I)
    check_close(prof.product_moment_gc(), R.Iyz, what + 'Iyz', rtol=0, atol=rel * I)
    check_close(prof.torsion_constant(), R.It, what + 'It', rtol=tol)
    check_close(prof.torsion_modulus(), R.It / min(R.t), what + 'Wt', rtol=tol)
    if not sc:
        return
    c = R.shear_centre()
    a = prof.shear_center()
    for i in (0, 1):
        check_close(a[i], c[i], what + 'shear centre ' + 'yz'[i], rtol=0, atol=1e2 * rel * far)
    check_close(prof.warping_constant(), R.warping(c), what + 'Iw', rtol=1e3 * rel, atol=1e3 * rel * I * size ** 2)


CHAIN = st.fixed_dictionaries({
    'd': st.lists(st.tuples(st.integers(-120, 120), st.integers(-120, 120)).map(list), min_size=3, max_size=8),
    't': st.one_of(st.sampled_from([1.5, 2.0, 0.96, 2]), st.lists(st.floats(0.5, 6), min_size=8, max_size=8)),
    'at': st.tuples(st.integers(-200, 200), st.integers(-200, 200)).map(list), 'rot': st.sampled_from([0, 90, 30, 201.5]),
    'flip': st.booleans(), 'node': st.booleans(),
    'split': st.lists(st.tuples(st.integers(0, 9), st.floats(0.05, 0.95)).map(list), max_size=3)})


@CHECK.clause('openprof', CHAIN, quick=1500, thorough=40000, rule='several thicknesses, and walls divided')
def openprof(k):
    from metku.eurocodes.en1993.en1993_1_3.open_prof import Node, OpenProf
    P = [np.array(k['at'], float)]
    for d in k['d']:
        if math.hypot(*d) < 5:
            raise Skip('short wall')
        P.append(P[-1] + d)
    a = math.radians(k['rot'])
    P = np.array(P) @ np.array([[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]])
    t = k['t'][:len(P) - 1] if isinstance(k['t'], list) else k['t']
    tl = t if isinstance(t, list) else [t] * (len(P) - 1)
    if k['flip']:
        P, tl = P[::-1], tl[::-1]
        t = tl if isinstance(t, list) else t
    R = Thin(P, tl)
    I1, I2 = [(R.Iy + R.Iz) / 2 + s * math.hypot((R.Iy - R.Iz) / 2, R.Iyz) for s in (1, -1)]
    if I2 < 1e-3 * I1:
        raise Skip('nearly straight')
    prof = OpenProf([Node(*p) if k['node'] else list(p) for p in P], t)
    compare(prof, R)
    (a1, a2), ang = prof.principal_axes()
    check_close(a1, I1, 'I1', rtol=1e-6)
    check_close(a2, I2, 'I2', rtol=1e-6, atol=1e-6 * I1)
    if I1 - I2 > 1e-6 * I1:
        check_close(R.Iyz * math.cos(2 * ang) - (R.Iz - R.Iy) / 2 * math.sin(2 * ang), 0, 'product moment in principal axes', atol=1e-6 * I1)
    for i, s in k['split']:
        prof.split_segment(i % len(prof.segments), s)
        compare(prof, R, what='after division: ')
        need(prof.n == len(prof.segments) + 1, 'nodes')
    return isinstance(t, list) and len(k['split']) > 0


def corner(c, r, a0, a1, n):
    return [[c[0] + r * math.cos(a0 + (a1 - a0) * i / n), c[1] + r * math.sin(a0 + (a1 - a0) * i / n)] for i in range(n + 1)]


def outline(kind, h, a, b, ca, cb, r, t, n=40):
    """centre line from the bottom lip to the top lip; origin in the middle of the web"""
    m, H = r + t / 2, (h - t) / 2
    sb = -1 if kind == 'Z' else 1
    pts = []
    e = b - t if cb else b - t / 2
    pi = math.pi
    if cb:
        pts += [[e, -H + cb - t / 2]] + corner((e - m, -H + m), m, 0, -pi / 2, n)
    else:
        pts += [[e, -H]]
    pts += corner((m, -H + m), m, -pi / 2, -pi, n)
    pts = [[sb * p[0], p[1]] for p in pts]
    pts += corner((m, H - m), m, pi, pi / 2, n)
    e = a - t if ca else a - t / 2
    if ca:
        pts += corner((e - m, H - m), m, pi / 2, 0, n) + [[e, H - ca + t / 2]]
    else:
        pts += [[e, H]]
    return pts


@CHECK.clause('profiles', st.fixed_dictionaries({
    'kind': st.sampled_from(['Z', 'C']), 't': st.sampled_from([0.8, 1.0, 1.5, 2.0, 2.5, 3.0]), 'h': st.integers(60, 400), 'a': st.integers(25, 120),
    'b': st.one_of(st.none(), st.integers(25, 120)), 'ca': st.one_of(st.just(0), st.integers(8, 40)), 'cb': st.one_of(st.none(), st.just(0), st.integers(8, 40)),
    'r': st.sampled_from([0, 1.0, 2.0, 3.0, 5.0, 8.0]), 'corners': st.booleans(), 'mat': st.sampled_from(['S350GD', 'S280GD', 'S220GD'])}), quick=700, thorough=15000,
    rule='flanges or lips of different size')
def profiles(k):
    import contextlib
    import io
    from metku.eurocodes.en1993.en1993_1_3 import cf_profs
    t, h, a, ca = k['t'], k['h'], k['a'], k['ca']
    b = a if k['b'] is None else k['b']
    cb = ca if k['cb'] is None else k['cb']
    r = k['r'] or 1.5 * t
    for f, c in ((a, ca), (b, cb)):
        if f < (2 if c else 1) * (r + t) + 3 or (c and c < r + t + 1):
            raise Skip('no straight part')
    if h < 2 * (r + t) + max(ca, cb) + cb + ca:
        raise Skip('lips meet')
    with contextlib.redirect_stdout(io.StringIO()):
        if k['kind'] == 'Z':
            x = cf_profs.ZSection(t, h, a, b, ca, cb, k['r'], k['mat'], corners=k['corners'])
        else:
            x = cf_profs.CSection(t, h, a, b, ca, cb, k['r'], k['mat'])
    core = t - 0.04
    P = outline(k['kind'], h, a, b, ca, cb, r, t)
    R = Thin(P, [core] * (len(P) - 1))
    nc = 2 + (ca > 0) + (cb > 0)
    m = r + t / 2
    straight = [h - 2 * (r + t), a - (r + t) * (2 if ca else 1), b - (r + t) * (2 if cb else 1), ca - r - t if ca else 0, cb - r - t if cb else 0]
    L = sum(straight) + nc * math.pi * m / 2
    check_close(x.center_line_length(), L, 'length of the centre line')
    check_close(x.Agross(), L * core, 'gross area')
    check_close(x.weight(), 7850e-9 * L * core, 'weight')
    check_close(x.self_weight(), 9.81 * 7850e-9 * L * core, 'self weight')
    # the model may have corners of a few chords: what a model with corners of three chords
    # differs by is the margin
    P3 = outline(k['kind'], h, a, b, ca, cb, r, t, n=3)
    R3 = Thin(P3, [core] * (len(P3) - 1))

    def near(got, f, what, scale):
        w = f(R)
        check_close(got, w, what, rtol=0, atol=1.2 * abs(f(R3) - w) + 1e-6 * scale)
    I = R.Iy + R.Iz
    far = max(a, b, h)
    near(x.A, lambda q: q.A, 'area of the model', R.A)
    near(x.Iy, lambda q: q.Iy, 'Iy', I)
    near(x.Iz, lambda q: q.Iz, 'Iz', I)
    near(x.Iyz, lambda q: q.Iyz, 'Iyz', I)
    y, z = x.centroid()
    # the differences of two effects may cancel: margin from the parts
    slack = 0.02 * m * nc * math.pi * m / 2 / L
    for i, v in enumerate((y, z)):
        check_close(v, R.c[i], 'centroid', rtol=0, atol=1e-6 * far + 1.2 * abs(R3.c[i] - R.c[i]) + slack)
    sc = R.shear_centre()
    s3 = R3.shear_centre()
    got = x.shear_center
    for i in (0, 1):
        check_close(got[i], sc[i], 'shear centre', rtol=0, atol=1e-6 * far + 1.2 * abs(s3[i] - sc[i]) + 4 * slack)
    w, w3 = R.warping(sc), R3.warping(s3)
    check_close(x.Iw, w, 'Iw', rtol=0, atol=1.2 * abs(w3 - w) + 2e-3 * m / far * R.A * far ** 4 * 0.05 + 1e-6 * w)
    near(x.It, lambda q: q.It, 'It', R.It)
    if a == b and ca == cb:
        if k['kind'] == 'Z':
            for v in (y, z, *got):
                check_close(v, 0, 'centre of a point symmetric profile', atol=1e-6 * h)
        else:
            for v in (z, got[1], x.Iyz / R.Iy * h):
                check_close(v, 0, 'symmetry', atol=1e-6 * h)
        need(x.issymmetric(), 'issymmetric')
    else:
        need(not x.issymmetric(), 'issymmetric')
    # notional widths: to the middle of the corner arcs
    if x.rounded_corners:
        q = m * math.sin(math.pi / 4)
        check_close(x.bp_w, straight[0] + 2 * q, 'bp of the web')
        check_close(x.bp_t, straight[1] + q * (2 if ca else 1), 'bp of the top flange')
        check_close(x.bp_b, straight[2] + q * (2 if cb else 1), 'bp of the bottom flange')
        check_close(x.bp_t_lip, straight[3] + q if ca else 0, 'bp of the top lip')
        check_close(x.bp_b_lip, straight[4] + q if cb else 0, 'bp of the bottom lip')
        check_close(x.gr, m * (math.tan(math.pi / 4) - math.sin(math.pi / 4)), 'gr')
        bps = straight[0] + straight[1] + straight[2] + straight[3] + straight[4] + 2 * nc * q
        d = 0.43 * r * nc / bps
        check_close(x.area(True) / x.area(), 1 - d, 'delta')
    fy, fu = {'S350GD': (350, 420), 'S280GD': (280, 360), 'S220GD': (220, 300)}[k['mat']]
    fya = min(fy + (fu - fy) * 7 * nc * core ** 2 / (L * core), (fy + fu) / 2)
    check_close(x.fya, fya, 'average yield strength')
    check_close(x.NRd, fya * x.A, 'tension resistance')
    return b != a or ca != cb


def k_web(fyb, t, hw, ss, c, r, phi, e, fs, ws):
    k = fyb / 228
    H, s, q = hw / t, ss / t, r / t
    k1, k2, k3 = 1.33 - 0.33 * k, min(1, max(0.5, 1.15 - 0.15 * q)), 0.7 + 0.3 * (phi / 90) ** 2
    k4, k5 = 1.22 - 0.22 * k, min(1, 1.06 - 0.06 * q)
    k5s, k6 = max(0.6, 1.49 - 0.53 * k), 0.88 - 0.12 * t / 1.9
    k7 = 1 + H / 750 if H < 150 else 1.2
    k8 = 1 / k if H < 66.5 else (1.10 - H / 665) / k
    k9, k10, k11 = 0.82 + 0.15 * t / 1.9, (0.98 - H / 865) / k, 0.64 + 0.31 * t / 1.9
    near = c <= 1.5 * hw
    if not e:
        if ws:
            f = k7 * (8.8 + 1.1 * math.sqrt(s)) if near else k5s * k6 * (13.2 + 2.87 * math.sqrt(s))
        elif near and fs:
            f = k1 * k2 * k3 * (9.04 - H / 60) * (1 + 0.01 * s)
        elif near:
            f = k1 * k2 * k3 * (5.92 - H / 132) * (1 + 0.01 * s if s <= 60 else 0.71 + 0.015 * s)
        else:
            f = k3 * k4 * k5 * (14.7 - H / 49.5) * (1 + 0.007 * s if s <= 60 else 0.75 + 0.011 * s)
    elif ws:
        f = k10 * k11 * (8.8 + 1.1 * math.sqrt(s)) if near else k8 * k9 * (13.2 + 2.87 * math.sqrt(s))
    elif near:
        f = k1 * k2 * k3 * (6.66 - H / 64) * (1 + 0.01 * s)
    else:
        f = k3 * k4 * k5 * (21.0 - H / 16.3) * (1 + 0.0013 * s)
    return f * t * t * fyb


@CHECK.clause('web', st.fixed_dictionaries({
    'fyb': st.sampled_from([220, 280, 350, 420, 500]), 't': st.floats(0.6, 3), 'hw': st.floats(20, 195), 'ss': st.floats(10, 120), 'c': st.floats(0, 3), 'r': st.floats(0, 6),
    'phi': st.floats(45, 90), 'e': st.sampled_from([0.0, 0.0, 1.0]), 'fs': st.booleans(), 'ws': st.booleans()}), quick=1200, thorough=30000,
    rule='inclined webs, or webs that cannot rotate')
def web(k):
    from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as s
    t = k['t']
    hw, ss, r = k['hw'] * t, k['ss'] * t, k['r'] * t
    c = k['c'] * hw
    if abs(k['c'] - 1.5) < 1e-6 or (k['ws'] and min(abs(k['hw'] - 150), abs(k['hw'] - 66.5)) < 1e-6) or abs(k['ss'] - 60) < 1e-9:
        raise Skip('limit')
    got = s.RwRd(k['fyb'], t, hw, ss, c, r, phi=k['phi'], e=k['e'] * hw, flange_stiffeners=k['fs'], web_stiffeners=k['ws'])
    check_close(got, k_web(k['fyb'], t, hw, ss, c, r, k['phi'], k['e'], k['fs'], k['ws']), 'Rw,Rd', rtol=1e-9)
    return k['ws'] or k['phi'] < 80


@CHECK.clause('sheet', st.fixed_dictionaries({
    'fyb': st.sampled_from([220, 280, 350, 420, 500]), 't': st.floats(0.6, 3), 'hw': st.floats(20, 150), 'ss': st.floats(10, 250), 'x': st.floats(0.05, 3), 'r': st.floats(0, 8),
    'phi': st.floats(45, 90), 'by': st.sampled_from(['e', 'c']), 'V': st.tuples(st.floats(-50, 50), st.floats(-50, 50)).map(list),
    'bt': st.integers(20, 150), 'bb': st.integers(20, 150), 'n': st.integers(1, 6)}), quick=1000, thorough=20000, rule='load between two unequal shears')
def sheet(k):
    from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as s
    from metku.eurocodes.en1993.en1993_1_3.trapezoidal import TrapezoidalSheet
    t, hw = k['t'], k['hw']
    d = k['x'] * hw
    if abs(k['x'] - 1.5) < 1e-6 or min(map(abs, k['V'])) < 1e-3:
        raise Skip('limit')
    V = sorted(map(abs, k['V']))
    bv = (V[1] - V[0]) / (V[1] + V[0])
    if k['x'] < 1.5:
        a, la = 0.075, 10
    else:
        a = 0.15
        la = k['ss'] if bv <= 0.2 else 10 if bv >= 0.3 else k['ss'] + (bv - 0.2) / 0.1 * (10 - k['ss'])
        la = min(la, 200)
    want = a * t * t * math.sqrt(k['fyb'] * 210e3) * (1 - 0.1 * math.sqrt(k['r'] / t)) * (0.5 + math.sqrt(0.02 * la / t)) * (2.4 + (k['phi'] / 90) ** 2)
    check_close(s.RwRd_two_webs(k['fyb'], k['r'], t, k['phi'], hw, k['ss'], VEd=list(k['V']), **{k['by']: d}), want, 'Rw,Rd of sheeting', rtol=1e-9)
    # geometry of the sheet: one trough is two flanges and two webs
    q = TrapezoidalSheet(t, hw + t, k['bt'], k['bb'], k['phi'], ntroughs=k['n'])
    w = hw / math.sin(math.radians(k['phi']))
    check_close(q.sw, w, 'length of a web')
    check_close(q.A, k['n'] * (t - 0.04) * (k['bt'] + k['bb'] + 2 * w), 'area of a sheet')
    check_close(q.pitch, k['bt'] + k['bb'] + 2 * (hw + t) / math.tan(math.radians(k['phi'])), 'pitch')
    check_close(q.width, k['n'] * q.pitch, 'width')
    return k['x'] > 1.5 and bv > 0.2


@CHECK.clause('rules', st.fixed_dictionaries({
    'l': st.floats(0.05, 3), 'b': st.floats(0, 0.6), 'K': st.floats(0.01, 5), 'Is': st.floats(10, 1e5), 'As': st.floats(5, 500), 'fy': st.sampled_from([220, 350]),
    'n': st.integers(0, 8), 't': st.floats(0.5, 4), 'Ag': st.floats(50, 3000), 'd': st.floats(3, 8), 't1': st.floats(1, 4), 'fu': st.floats(300, 550),
    'm': st.tuples(*[st.floats(0.5, 2)] * 5).map(list),
    'ba': st.floats(40, 199), 'A': st.floats(1, 12), 'bT': st.floats(20, 200), 'bR': st.floats(100, 300), 'pos': st.sampled_from(['pos', 'neg']),
    'load': st.sampled_from(['gravity', 'gravity', 'uplift']), 'tn': st.one_of(st.floats(0.5, 1.5), st.sampled_from([0.75, 1.0]))}), quick=1500, thorough=40000,
    rule='sheets of different thickness')
def rules(k):
    from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as s
    l, b, t, d = k['l'], k['b'], k['t'], k['d']
    chi = s.distortional_buckling_reduction_factor(l)
    if min(abs(l - 0.65), abs(l - 1.38)) > 1e-9:
        check_close(chi, 1.0 if l < 0.65 else 1.47 - 0.723 * l if l < 1.38 else 0.66 / l, 'chi_d')
    # (the curves of the standard do not quite meet at 1.38)
    need(s.distortional_buckling_reduction_factor(l * 1.01) <= chi * (1.015 if l <= 1.38 < l * 1.01 else 1.001)
         and 0 < chi <= 1.0001, 'chi_d must not grow')
    check_close(s.buckling_factor_edge_stiffener(b), 0.5 if b <= 0.35 else 0.5 + 0.83 * (b - 0.35) ** (2 / 3), 'k_sigma', rtol=1e-9)
    check_close(s.distortional_buckling_stress(k['Is'], k['As'], 210e3, k['K']), 2 * math.sqrt(k['K'] * 210e3 * k['Is']) / k['As'], 'sigma_cr')
    check_close(s.fya(k['fy'], k['fu'] + 60, t, k['Ag'], k['n']), min(k['fy'] + (k['fu'] + 60 - k['fy']) * 7 * k['n'] * t * t / k['Ag'], (k['fy'] + k['fu'] + 60) / 2), 'fya')
    check_close(s.notional_width(k['ba'], [t, 2 * t], [90, 60]), k['ba'] + t * math.sin(math.pi / 4) + 2 * t * 0.5, 'bp')
    check_close(s.rounding_factor([t, d], [90, 45], [k['ba'], k['bT']]), 0.43 * (t + d / 2) / (k['ba'] + k['bT']), 'delta')
    check_close(s.sheeting_shear_stiffness(t, k['bT'] * 10, k['ba'], k['Ag']), 1000 * t ** 1.5 * (50 + 10 * k['Ag'] ** (1 / 3)) * k['bT'] * 10 / k['ba'], 'S')
    # screws
    t1 = t * k['t1']
    low, high = min(3.2 * math.sqrt(t / d), 2.1), 2.1 if t >= 1.0 else min(3.2 * math.sqrt(t / d), 2.1)
    a = low + (high - low) * min(1, (k['t1'] - 1) / 1.5)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        F, al = s.screw_bearing_resistance(k['fu'], d, t, t1)
    check_close(al, a, 'alpha of a screw', rtol=1e-9)
    check_close(F, a * k['fu'] * d * t / 1.25, 'Fb,Rd')
    check_close(s.screw_net_secton_resistance(k['Ag'], k['fu']), k['Ag'] * k['fu'] / 1.25, 'Fn,Rd')
    m = k['m']
    e1, e2, p1, p2, dd = 3 * d * m[0], 1.5 * d * m[1], 3 * d * m[2], 3 * d * m[3], d
    if min(abs(v - 1) for v in m) > 1e-9:
        need(bool(s.screw_validity(e1, e2, p1, p2, dd, t, t1)) == all(v > 1 for v in m[:4]), 'range of validity of screws')
    # rotational restraint of sheeting
    ba, A, bT, bR, tn = k['ba'], k['A'], k['bT'], k['bR'], k['tn']
    if abs(ba - 125) < 1e-6 or (k['load'] == 'gravity' and tn < 0.75):
        raise Skip('limit')
    kba = (ba / 100) ** 2 if ba < 125 else 1.25 * ba / 100
    pos = k['pos'] == 'pos'
    if k['load'] == 'gravity':
        u = min(1, max(0, (tn - 0.75) / 0.25))
        c0 = 0.08 if pos else 0.16
        kA = 1 + (A - 1) * (c0 + u * (0.095 - c0))
        C, lim = (5.2, 40) if pos else (3.1, 120)
    else:
        kA, C, lim = 1.0, 2.6, 40
    kt = (tn / 0.75) ** (1.1 if pos and tn >= 0.75 else 1.5)
    want = C * kba * kt * min(1, 185 / bR) * kA * (math.sqrt(lim / bT) if bT > lim else 1)
    check_close(s.CD_A(ba, tn, k['pos'], A, bT, bR, k['load']), want, 'C_D,A', rtol=1e-9)
    return k['t1'] > 1


@CHECK.clause('panel', st.fixed_dictionaries({
    'tF': st.tuples(st.floats(0.4, 1), st.floats(0.4, 1.2)).map(list), 'tC': st.floats(50, 250), 'G': st.floats(1, 10), 'w': st.floats(600, 1500), 'L': st.floats(1000, 9000),
    'c': st.lists(st.floats(100, 1000), min_size=1, max_size=3), 'tsup': st.floats(2, 15), 'mat': st.sampled_from(['S280GD', 'S350GD']), 'n': st.integers(1, 8),
    'd': st.tuples(st.floats(3.5, 6), st.floats(0.8, 1.0)).map(list)}), quick=400, thorough=10000, rule='faces of different thickness')
def panel(k):
    from metku.sandwich import sandwich as s
    f = [s.Face(t, k['mat']) for t in k['tF']]
    dS = k['d'][0]
    d1 = dS * k['d'][1]
    x = s.SandwichPanel(f, s.Core(k['tC'], k['G'], 110e-9), k['w'], k['L'], c=list(k['c']), fastener=s.SandwichScrew(dS, dS, d1))
    t1, t2 = k['tF']
    D = t1 + t2 + k['tC']
    check_close(x.thickness, D, 'thickness')
    d = k['tC'] + (t1 + t2) / 2
    check_close(x.d, d, 'distance of the faces')
    check_close(x.S, k['G'] * k['w'] * d * d / k['tC'], 'shear stiffness')
    # bending stiffness of the pair of faces = own + about the common centroid
    w = k['w']
    z = t2 * d / (t1 + t2)
    EI = 210e3 * w * (t1 * z * z + t2 * (d - z) ** 2)
    check_close(x.EIs, EI, 'EIs')
    check_close(x.EIo, 210e3 * w * (t1 ** 3 + t2 ** 3) / 12, 'EIo')
    fu = {'S280GD': 360, 'S350GD': 420}[k['mat']]
    tc = t2 - 0.04
    check_close(x.fastener_shear_resistance(), 4.2 * math.sqrt(tc ** 3 * d1) * fu / 1.25, 'fastener')
    # the fastener as a cantilever from the support, held by the internal face at the
    # support surface and by the external face at distance D, on its clamping spring
    ts = k['tsup']
    EIf = 200e3 * math.pi * dS ** 4 / 64
    C = 2400 * math.sqrt(ts * d1 ** 5)
    kF = 6.93 * fu * math.sqrt(tc ** 3 * d1) / (0.26 + 0.8 * t2) if tc < 0.7 else 4.2 * fu * math.sqrt(tc ** 3 * d1) / 0.373
    if abs(tc - 0.7) < 1e-9:
        raise Skip('limit')
    xF = 1 - (1 / kF - 0.5 * D * ts / C - D * ts ** 2 / 8 / EIf) / (1 / kF + D ** 2 / C + D ** 2 * (2 * D + 3 * ts) / 6 / EIf)
    kv = 1 / (xF / kF + (ts ** 2 + 2 * (1 - xF) * D * ts) / 4 / C + (3 * (1 - xF) * D * ts ** 2 + ts ** 3) / 24 / EIf)
    check_close(x.fastener_transverse_stiffness(ts), kv, 'kv', rtol=1e-9)
    check_close(x.shear_stiffness_for_support(ts, k['L'], k['n']), kv * k['n'] / 2 / k['L'] * sum(c * c for c in k['c']), 'Si', rtol=1e-9)
    return abs(t1 - t2) > 0.1
