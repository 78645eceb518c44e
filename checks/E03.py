"""E03: welded joints of rectangular hollow sections, EN 1993-1-8, 7."""
import math

import numpy as np
from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('E03', 'joint whose governing failure mode is not chord face failure, or chord '
              'stress, strength or reinforcement changes the resistance',
              ['gamma_M5 = 1.0', 'shear of the chord in the gap not above its resistance'])
U = st.floats(0, 1)
GR = st.sampled_from([235, 355, 355, 420, 460, 500, 700])


@st.composite
def chord(draw, braces):
    t = draw(st.floats(3, 16))
    b = draw(st.floats(10, 38)) * t
    sq = draw(st.booleans())
    h = b if sq else b * draw(st.floats(0.5, 2))
    out = dict(b=b, h=h, t=t, fy=draw(GR), n=draw(st.floats(-0.9, 0.9)),
               m=draw(st.one_of(st.just(0.0), st.floats(-0.4, 0.6))),
               r=draw(st.sampled_from([0, 0, 0, 0.7, 0.95, 1.0])), br=[],
               member=draw(st.booleans()))
    for i in range(braces):
        bb = b * draw(st.one_of(st.floats(0.25, 1), st.floats(0.8, 1.0), st.just(1.0)))
        out['br'].append(dict(
            b=bb, h=bb * draw(st.one_of(st.just(1.0), st.floats(0.5, 2))),
            t=max(2.0, min(t, bb / 10) * draw(st.floats(0.3, 1))), fy=draw(GR),
            ang=draw(st.floats(30, 90 if braces == 1 else 75)),
            N=draw(st.floats(0.02, 1.1))))
    return out


def sect(d, cls=None):
    from metku.sections.steel.RHS import RHS, SHS
    fy = 'S460M' if d['fy'] == 460 else d['fy']
    if d['h'] == d['b']:
        return SHS(d['b'], d['t'], fy=fy)
    return RHS(d['h'], d['b'], d['t'], fy=fy)


def member(p, N):
    from metku.structures.steel.steel_member import SteelMember
    m = SteelMember(p, 2500.0)
    m.add_section(ned=0.3 * N)
    m.add_section(ned=N)
    return m


def red(k):
    if k['r']:
        return k['r']
    return 1.0 if k['fy'] <= 355 else 0.9 if k['fy'] <= 460 else 0.8


def kn(k, p, beta, N0, M0):
    n = (-N0 / p.A + M0 / p.Wel[0]) / k['fy']
    return min(1.0, 1.3 - 0.4 * n / beta) if n > 0 else 1.0


@CHECK.clause('K', st.fixed_dictionaries({
    'c': chord(2), 'g': st.floats(0.1, 0.9), 'comp': st.sampled_from([0, 1]),
    'plate': st.sampled_from([None, None, 0.0, 0.5, 1.6, 3.0])}), quick=3000, thorough=100000,
    rule='K gap joint: Table 7.10/7.12, every failure mode and design()')
def K(k):
    from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSKGapJoint, eccentricity
    c = k['c']
    p = sect(c)
    N0, M0 = c['n'] * p.A * c['fy'], c['m'] * p.Wel[0] * c['fy']
    br = c['br']
    secs, N = [], []
    for i, d in enumerate(br):
        s = sect(d)
        f = d['N'] * s.A * d['fy'] * 0.6 * (-1 if i == k['comp'] else 1)
        s.Ned = f
        N.append(f)
        secs.append(s)
    gap = k['g'] * c['b']
    ang = [d['ang'] for d in br]
    sn = np.sin(np.radians(ang))
    if c['member']:
        mem = [member(s, f) for s, f in zip(secs, N)]
        j = RHSKGapJoint(member(p, 0), mem, ang, gap, N0=N0, M0=M0)
    else:
        j = RHSKGapJoint(p, secs, ang, gap, N0=N0, M0=M0)
    j.r = c['r']
    b0, h0, t0, fy0 = c['b'], c['h'], c['t'], c['fy']
    b = np.array([d['b'] for d in br])
    h = np.array([d['h'] for d in br])
    t = np.array([d['t'] for d in br])
    fy = np.array([d['fy'] for d in br])
    beta = (sum(b) + sum(h)) / (4 * b0)
    gam = b0 / 2 / t0
    check_close(j.beta(), beta, 'beta', 1e-9)
    check_close(j.gamma(), gam, 'gamma', 1e-9)
    # geometry: intersection of the brace axes
    D = h[0] / 2 / sn[0] + gap + h[1] / 2 / sn[1]
    depth = D / sum(1 / math.tan(math.radians(a)) for a in ang)
    check_close(j.eccentricity(), depth - h0 / 2, 'eccentricity', 1e-9, 1e-6)
    check_close(eccentricity(h0, h[0], h[1], ang[0], ang[1], gap), depth - h0 / 2,
                'eccentricity()', 1e-9, 1e-6)
    tf = t0
    if k['plate'] is not None:
        want = max(2 * max(t), k['plate'] * max(t))
        bp = b0 * (0.5 if k['plate'] < 1 else 1.2)
        j.add_chord_face_plate(tp=k['plate'] * max(t), bp=bp)
        tf = want
        pl = j.chord_face_plate
        check_close(pl['tp'], want, 'face plate thickness', 1e-9)
        check_close(pl['lp'], 1.5 * (h[0] / sn[0] + gap + h[1] / sn[1]), 'plate length', 1e-9)
        check_close(pl['bp'], max(bp, b0 - 2 * t0), 'plate width', 1e-9)
    ci, ti = k['comp'], 1 - k['comp']
    check_close(abs(j.N1), abs(N[ci]), 'force of the compression brace', 1e-9)
    check_close(abs(j.N2), abs(N[ti]), 'force of the tension brace', 1e-9)
    need(j.angle1 == ang[ci] and j.angle2 == ang[ti], 'angles of braces exchanged')
    cs = np.cos(np.radians(ang))
    check_close(j.N0gap, N0 + abs(N[ti]) * cs[ti] if N0 < 0 else N0 - abs(N[ci]) * cs[ci],
                'axial force in the gap', 1e-9, 1)
    V = abs(N[ci]) * sn[ci]
    check_close(j.V0gap, V, 'shear force in the gap', 1e-9)
    k_n, r = kn(c, p, beta, N0, M0), red(c)
    check_close(j.eval_KN(), k_n, 'kn', 1e-9)
    cff = r * 8.9 * k_n * fy0 * tf ** 2 * math.sqrt(gam) * beta / sn
    check_vec(j.chord_face_failure(), cff, 'chord face failure', 1e-9)
    Av = (2 * h0 + b0 / math.sqrt(1 + 4 * gap ** 2 / 3 / t0 ** 2)) * t0
    cs_ = r * fy0 * Av / math.sqrt(3) / sn
    be = np.minimum(10 * tf / b0 * fy0 * tf / (fy * t), 1) * b
    bf = r * fy * t * (2 * h - 4 * t + b + be)
    bep = np.minimum(10 * tf / b0, 1) * b
    ps = r * fy0 * tf / math.sqrt(3) / sn * (2 * h / sn + b + bep)
    check_vec(j.brace_failure(), bf, 'brace failure', 1e-9)
    check_vec(j.punching_shear(), ps, 'punching shear', 1e-9)
    VRd = p.A * h0 / (b0 + h0) * fy0 / math.sqrt(3)
    Ni, N0Rd = j.chord_shear()
    check_vec(Ni, cs_, 'chord shear', 1e-9)
    lim = np.minimum(np.minimum(cff, cs_), bf)
    if beta <= 1 - 1 / gam:
        lim = np.minimum(lim, ps)
    if V > VRd:
        need(N0Rd == 0, 'chord resists axial force although its shear resistance is exceeded')
        return False
    want = r * fy0 * (p.A - Av + Av * math.sqrt(1 - (V / VRd) ** 2))
    check_close(N0Rd, want, 'axial resistance in the gap', 1e-9)
    if abs(want) < 1e-6 * p.A * fy0:
        raise Skip
    check_vec(j.design(), list(np.abs(N) / lim) + [abs(N0 / want)], 'utilisation', 1e-9)
    return bool(np.any(lim < cff * 0.999)) or k_n < 1 or r < 1 or tf != t0


def yx(k, X):
    from metku.eurocodes.en1993.en1993_1_8 import rhs_joints as rj
    c = k['c']
    p = sect(c)
    N0, M0 = c['n'] * p.A * c['fy'], c['m'] * p.Wel[0] * c['fy']
    d = c['br'][0]
    s = sect(d)
    N = d['N'] * s.A * d['fy'] * 0.6 * k['sign']
    s.Ned = N
    cl = rj.RHSXJoint if X else rj.RHSYJoint
    if c['member']:
        j = cl(member(p, 0), member(s, N), d['ang'], N0=N0, M0=M0)
    else:
        j = cl(p, s, d['ang'], N0=N0, M0=M0)
    j.r = c['r']
    check_close(j.N1, N, 'brace force', 1e-9)
    if k['other']:
        N *= k['other']
        j.N1 = N
    b0, h0, t0, fy0 = c['b'], c['h'], c['t'], c['fy']
    b, h, t, fy, sn = d['b'], d['h'], d['t'], d['fy'], math.sin(math.radians(d['ang']))
    beta, gam = b / b0, b0 / 2 / t0
    k_n, r = kn(c, p, beta, N0, M0), red(c)
    check_close(j.beta(), beta, 'beta', 1e-9)
    check_close(j.eval_KN(), k_n, 'kn', 1e-9)

    def cff(x):
        return r * k_n * fy0 * t0 ** 2 / (1 - x) / sn * (2 * h / b0 / sn + 4 * math.sqrt(1 - x))
    if beta < 0.99:
        check_close(j.chord_face_failure(), cff(beta), 'chord face failure', 1e-9)
    fb, chi = fy0, 1
    if N < 0:
        lam = 3.46 * (h0 / t0 - 2) * math.sqrt(1 / sn) / (math.pi * math.sqrt(210e3 / fy0))
        check_close(j.slend(), lam, 'slenderness of the side wall', 1e-9)
        phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam ** 2)
        chi = min(1, 1 / (phi + math.sqrt(phi ** 2 - lam ** 2)))
        fb = chi * fy0 * (0.8 * sn if X else 1)
    check_close(j.fb(), fb, 'strength of the side wall', 1e-9)
    csw = r * k_n * fb * t0 / sn * (2 * h / sn + 10 * t0)
    shear = X and math.cos(math.radians(d['ang'])) > h / h0
    if shear:
        csw = min(csw, r * fy0 * p.Ashear[1] / math.sqrt(3) / sn)
    check_close(j.chord_web_buckling(), csw, 'side wall', 1e-9)
    bf = r * fy * t * (2 * h - 4 * t + 2 * min(1, 10 * t0 / b0 * fy0 * t0 / fy / t) * b)
    check_close(j.brace_failure(), bf, 'brace failure', 1e-9)
    ps = r * fy0 * t0 / math.sqrt(3) / sn * (2 * h / sn + 2 * min(1, 10 * t0 / b0) * b)
    check_close(j.punching_shear(), ps, 'punching shear', 1e-9)
    if beta < 0.85:
        R = cff(beta)
    else:
        a = cff(0.85)
        R = min(a + (beta - 0.85) / 0.15 * (csw - a), bf)
        if beta <= 1 - 1 / gam:
            R = min(R, ps)
    check_close(j.design(), abs(N) / R, 'utilisation', 1e-9)
    # a stronger chord wall, a steeper chord: relations that do not need the formulas
    return beta >= 0.85 or k_n < 1 or r < 1


YX = st.fixed_dictionaries({'c': chord(1), 'sign': st.sampled_from([-1, 1]),
                            'other': st.sampled_from([0, 0, 0.6, -1.0])})


@CHECK.clause('Y', YX, quick=2000, thorough=80000, rule='T and Y joints: Table 7.11')
def Y(k):
    return yx(k, False)


@CHECK.clause('X', YX, quick=2000, thorough=80000, rule='X joints: Table 7.11')
def X(k):
    return yx(k, True)


P = st.lists(st.floats(-1000, 1000), min_size=2, max_size=2)


@CHECK.clause('lines', st.tuples(P, P, P, P, st.floats(-360, 360), st.booleans()), quick=600,
              thorough=20000, rule='lines, intersections, distances, rotations')
def lines(k):
    from metku.eurocodes.en1993.en1993_1_8.rhs_joints import Line, rotate
    a, b, c, d = (np.array(x) for x in k[:4])
    th, byv = k[4], k[5]
    if np.linalg.norm(b - a) < 1 or np.linalg.norm(d - c) < 1:
        raise Skip
    u, v = (b - a) / np.linalg.norm(b - a), (d - c) / np.linalg.norm(d - c)
    L = Line(p1=a, v=u) if byv else Line(p1=a, p2=b)
    M = Line(p1=list(c), p2=list(d))
    check_vec(L.v, u, 'direction', 1e-9)
    cr = u[0] * v[1] - u[1] * v[0]
    D = abs((c - a)[0] * u[1] - (c - a)[1] * u[0])
    dist, q = L.distance(c)
    check_close(dist, D, 'distance', 1e-7, 1e-6)
    need(abs((q - c) @ u) < 1e-6 and abs((q - a)[0] * u[1] - (q - a)[1] * u[0]) < 1e-6,
         'closest point')
    w = rotate(list(a), th)
    z = complex(*a) * complex(math.cos(math.radians(th)), math.sin(math.radians(th)))
    check_vec(w, [z.real, z.imag], 'rotation', 1e-9, 1e-9)
    if abs(cr) < 1e-3:
        raise Skip
    t, x = L.intersect(M)
    check_vec(L(t[0]), x, 'intersection on first line', 1e-9, 1e-6)
    check_vec(M(t[1]), x, 'intersection on second line', 1e-9, 1e-6 / abs(cr))
    return True
