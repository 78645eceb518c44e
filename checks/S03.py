"""S03: cross-section resistances and utilisation, EN 1993-1-1, 6.2."""
import math

from hypothesis import strategies as st

from checks.S02 import expected, parts
from lib import gensec
from lib.harness import Check, Skip, check_close, need

CHECK = Check('S03', 'utilisation between 0.02 and 2 with at least two '
              'nonzero internal forces',
              ['class 1-3 sections (effective sections of class 4: S04)',
               'interaction of bending and axial force about the major axis '
               'for I and hollow sections, 6.2.9.1(5) and 6.2.9.3'])
LEVEL = st.one_of(st.just(0.0), st.floats(0.02, 1.3), st.floats(0.02, 1.3))
SEC = gensec.section(('I', 'RHS', 'SHS', 'CHS', 'WI', 'WIsym', 'WQ'))


def shear_areas(case, A):
    k, d = case['kind'], case['d']
    eta = 1.2 if case['fy'] <= 460 else 1.0
    if k == 'I':
        return (2 * d['b'] * d['tf'],
                A - 2 * d['b'] * d['tf'] + (d['tw'] + 2 * d['r']) * d['tf'])
    if k in ('RHS', 'SHS'):
        b = d['h'] if k == 'SHS' else d['b']
        return A * b / (b + d['h']), A * d['h'] / (b + d['h'])
    if k == 'CHS':
        return 2 * A / math.pi, 2 * A / math.pi
    if k == 'WQ':
        hw = d['h'] - d['tt']
        return A - 2 * hw * d['tw'], eta * 2 * d['tw'] * hw
    hw = d['h'] - d['tt'] - d['tb']
    return A - hw * d['tw'], eta * d['tw'] * hw


def mn_factor(case, A, n):
    """MN,Rd / Mpl,Rd."""
    k, d = case['kind'], case['d']
    if n > 1:
        return 0.0
    if k == 'CHS':
        return 1 - n ** 1.7
    if k == 'I':
        a = (A - 2 * d['b'] * d['tf']) / A
    elif k in ('RHS', 'SHS'):
        b = d['h'] if k == 'SHS' else d['b']
        a = (A - 2 * b * d['t']) / A
    else:
        a = (A - d['bt'] * d['tt'] - d['bb'] * d['tb']) / A
    a = min(a, 0.5)
    return min(1.0, (1 - n) / (1 - 0.5 * a))


@CHECK.clause('utilisation', st.fixed_dictionaries({
    'sec': SEC, 'n': LEVEL, 'ns': st.sampled_from([1, -1]), 'm': LEVEL,
    'ms': st.sampled_from([1, -1]), 'v': LEVEL, 'mz': LEVEL, 'vy': LEVEL}),
    quick=4000, thorough=200000,
    rule='section_resistance() and the single resistances vs. clause 6.2')
def utilisation(case):
    sc = case['sec']
    k, fy = sc['kind'], sc['fy']
    if k not in ('CHS', 'WQ') and (parts(sc)[1] <= 0 or min(parts(sc)[0]) <= 0):
        raise Skip
    sec = gensec.make(sc)
    ref = gensec.ref(sc)
    z = ref.swapped()
    A, Wpl, Wel = ref.A, ref.Wply(), ref.Wely()
    N = case['ns'] * case['n'] * A * fy
    ms = case['ms'] if k in ('I', 'RHS', 'SHS', 'CHS', 'WIsym') else 1
    M = ms * case['m'] * Wel * fy
    avy, avz = shear_areas(sc, A)
    V = case['v'] * avz * fy / math.sqrt(3)
    Mz = case['mz'] * z.Wely() * fy
    sec.Ned = N
    sec.Med = [M, Mz]
    Vy = case['vy'] * avy * fy / math.sqrt(3)
    sec.Ved = [Vy, V]
    if k == 'WQ':
        # classification of WQ sections under N and M is not implemented
        sec.Ned = N = max(N, 0.0) if M else N
        cl = {sec.section_class()}
    else:
        cl = expected(sc, N, abs(M))
    if cl is None or len(cl) != 1:
        raise Skip
    c = cl.pop()
    if c == 4:
        raise Skip
    rt = 2e-4
    MyRd = (Wpl if c < 3 else Wel) * fy
    MzRd = (z.Wply() if c < 3 else z.Wely()) * fy
    what = f'{k} class {c} '
    check_close(sec.NRd, A * fy, what + 'NRd', rt)
    check_close(sec.axial_force_resistance(), A * fy, what + 'axial force '
                'resistance', rt)
    check_close(sec.VzRd, avz * fy / math.sqrt(3), what + 'VzRd', rt)
    check_close(sec.VRd, avz * fy / math.sqrt(3), what + 'VRd', rt)
    check_close(sec.shear_force_resistance(), avz * fy / math.sqrt(3),
                what + 'shear resistance', rt)
    check_close(sec.VyRd, avy * fy / math.sqrt(3), what + 'VyRd', rt)
    check_close(sec.shear_force_resistance(axis='y'), avy * fy / math.sqrt(3),
                what + 'shear resistance y', rt)
    check_close(sec.MyRd, MyRd, what + 'MyRd', rt)
    check_close(sec.MRd, MyRd, what + 'MRd', rt)
    check_close(sec.MzRd, MzRd, what + 'MzRd', rt)
    check_close(sec.elastic_bending_resistance(), Wel * fy, 'Mel,y', rt)
    check_close(sec.plastic_bending_resistance(), Wpl * fy, 'Mpl,y', rt)
    check_close(sec.elastic_bending_resistance('z'), z.Wely() * fy, 'Mel,z', rt)
    check_close(sec.plastic_bending_resistance('z'), z.Wply() * fy, 'Mpl,z', rt)
    UN = abs(N) / (A * fy)
    UV = case['v']
    UM = abs(M) / MyRd
    if k == 'WQ':
        a = min((A - sc['d']['bt'] * sc['d']['tt']
                 - sc['d']['bb'] * sc['d']['tb']) / A, 0.5)
        fac = 0.0 if UN > 1 else min(1, (1 - UN) / (1 - 0.5 * a))
    else:
        fac = mn_factor(sc, A, UN)
    if c < 3:
        UMN = UM / fac if fac > 0 else UN + UM
    else:
        UMN = UN + UM
    if abs(UN - 1) < 1e-3:
        raise Skip
    amp = 1 + (UN / (1 - UN) if UN < 1 else 0)
    got = sec.section_resistance()
    need(len(got) == 4, 'four utilisation ratios')
    for g, w, s in zip(got, (UN, UV, UM, UMN), ('UN', 'UV', 'UM', 'UMN')):
        check_close(g, w, what + s, rt * amp, 1e-9)
    m = sec.section_resistance(return_list=False)
    check_close(m, max(got), 'governing utilisation', 1e-12)
    gz = sec.section_resistance(axis='z')
    check_close(gz[0], UN, what + 'UN (z)', rt)
    check_close(gz[2], Mz / MzRd, what + 'UMz', rt, 1e-9)
    need(gz[3] >= gz[2] - 1e-9, 'interaction lowers the utilisation')
    check_close(gz[1], case['vy'], what + 'UVy', rt, 1e-9)
    nz = sum(x > 0 for x in (case['n'], case['m'], case['v']))
    return nz > 1 and (k, c)


@CHECK.clause('formulas', st.fixed_dictionaries({
    'A': st.floats(10, 1e6), 'fy': st.floats(100, 1000),
    'fu': st.floats(100, 1200), 'h': st.floats(1, 200),
    'm': st.integers(1, 40)}), quick=500, thorough=20000,
    rule='resistance functions of 6.2 and sway imperfection 5.3.2')
def formulas(case):
    from metku.eurocodes.en1993 import en1993_1_1 as en
    A, fy, fu = case['A'], case['fy'], case['fu']
    check_close(en.tension_resistance(A, fy), A * fy, 'tension', 1e-12)
    check_close(en.compression_resistance(A, fy), A * fy, 'compression', 1e-12)
    check_close(en.bending_resistance(A, fy), A * fy, 'bending', 1e-12)
    check_close(en.shear_resistance(A, fy), A * fy / 3 ** 0.5, 'shear', 1e-12)
    check_close(en.net_section_resistance(A, fu), 0.9 * A * fu / 1.25,
                'net section', 1e-12)
    h, m = case['h'], case['m']
    ah = min(max(2 / math.sqrt(h), 2 / 3), 1)
    check_close(en.sway_imperfection(h, m),
                ah * math.sqrt(0.5 * (1 + 1 / m)) / 200, 'sway', 1e-12)
    return True
