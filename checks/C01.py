"""C01: composite members (EN 1994-1-1): concrete, studs, concrete filled tubes, composite beams."""
import math

from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, need
from lib.refsec import Sec

CHECK = Check('C01', 'reinforcement away from the axis, or a neutral axis in the steel section',
              ['EN 1992 concrete C12/15 to C50/60', 'rectangular tubes with four bars', 'neutral axis of a column not through a bar',
               'rolled I-sections and one slab per beam'])
FCK = {'C12/15': 12, 'C16/20': 16, 'C20/25': 20, 'C25/30': 25, 'C30/37': 30, 'C35/45': 35, 'C40/50': 40, 'C45/55': 45, 'C50/60': 50}
ECM = {12: 27, 16: 29, 20: 30, 25: 31, 30: 33, 35: 34, 40: 35, 45: 36, 50: 37}
GRADE = st.sampled_from(list(FCK))


def concrete(name):
    from metku.eurocodes.en1992.constants import Concrete
    return Concrete(name)


def ecm(fck):
    return 22000 * ((fck + 8) / 10) ** 0.3


def creep(fck, RH, h0, t, t0):
    fcm = fck + 8
    a1, a2, a3 = (35 / fcm) ** 0.7, (35 / fcm) ** 0.2, (35 / fcm) ** 0.5
    h = (1 - RH / 100) / (0.1 * h0 ** (1 / 3))
    rh = 1 + h if fcm <= 35 else (1 + h * a1) * a2
    b = 1.5 * (1 + (0.012 * RH) ** 18) * h0
    bh = min(b + 250, 1500) if fcm <= 35 else min(b + 250 * a3, 1500 * a3)
    return rh * 16.8 / math.sqrt(fcm) / (0.1 + t0 ** 0.2) * ((t - t0) / (bh + t - t0)) ** 0.3


@CHECK.clause('concrete', st.fixed_dictionaries({
    'c': GRADE, 'RH': st.floats(20, 95), 'h0': st.one_of(st.floats(20, 1500), st.just(1e11)), 't0': st.floats(1, 400),
    't': st.lists(st.floats(1, 1e5), min_size=2, max_size=4), 'd': st.floats(4, 40), 'mat': st.sampled_from(['B500B'])}), quick=800, thorough=20000,
    rule='creep grows with age and shrinks with later loading')
def concrete_(k):
    from metku.eurocodes.en1992 import en1992_1_1
    c = concrete(k['c'])
    f = FCK[k['c']]
    check_close(c.fck, f, 'fck')
    check_close(c.fcm, f + 8, 'fcm')
    check_close(c.Ecm, ecm(f), 'Ecm')
    need(abs(c.Ecm / 1000 - ECM[f]) <= 0.6, 'Ecm of Table 3.1')
    need(c.fck_cube == int(k['c'].split('/')[1]), 'cube strength')
    check_close(c.fcd(), 0.85 * f / 1.5, 'fcd')
    check_close(c.fcd(a_cc=1.0), f / 1.5, 'fcd without alpha')
    check_close(en1992_1_1.fcd(f), 0.85 * f / 1.5, 'fcd')
    check_close(c.nu_cracked(), 0.6 * (1 - f / 250), 'nu')
    c.RH = k['RH']
    last = 0
    for t in sorted(k['t']):
        p = c.creep_coefficient(k['h0'], k['t0'] + t, k['t0'])
        check_close(p, creep(f, k['RH'], k['h0'], k['t0'] + t, k['t0']), 'creep coefficient', rtol=1e-9)
        need(p >= last, 'creep must not decrease')
        last = p
    need(c.creep_coefficient(k['h0'], k['t0'] + 1e6, k['t0']) >= c.creep_coefficient(k['h0'], 2 * k['t0'] + 1e6, 2 * k['t0']) * (1 - 1e-3),
         'creep of concrete loaded later')
    r = en1992_1_1.Rebar(k['d'], k['mat'])
    check_close(r.A, math.pi * k['d'] ** 2 / 4, 'area of a bar')
    check_close(r.I, math.pi * k['d'] ** 4 / 64, 'I of a bar')
    check_close(r.fyd, 500 / 1.15, 'fsd')
    check_close(r.weight, 7850e-9 * r.A * 1e3, 'weight of a bar')
    check_close(r.r, k['d'] / 2, 'radius')
    return f > 27 and k['h0'] < 1e6


@CHECK.clause('stud', st.fixed_dictionaries({
    'd': st.sampled_from([19, 22, 25]), 'L': st.floats(60, 250), 'fu': st.floats(300, 550), 'c': GRADE}), quick=300, thorough=10000,
    rule='studs shorter than four diameters, or steel failure')
def stud(k):
    from metku.eurocodes.en1994 import en1994_1_1 as e
    s = e.ShearStud(e.S3L_Studs[k['d']], length=k['L'], fu=k['fu'])
    f = FCK[k['c']]
    E = concrete(k['c']).Ecm
    need(s.d == k['d'], 'diameter')
    if k['L'] < 3 * k['d']:
        raise Skip('too short')
    a = min(1.0, 0.2 * (k['L'] / k['d'] + 1))
    ps = 0.8 * k['fu'] * math.pi * k['d'] ** 2 / 4 / 1.25
    pc = 0.29 * a * k['d'] ** 2 * math.sqrt(f * E) / 1.25
    check_close(s.PRd(f, E), min(ps, pc), 'PRd')
    return a < 1 or ps < pc


def rounded(B, H, r):
    """rectangle with rounded corners"""
    s = Sec().rect(-B / 2 + r, B / 2 - r, -H / 2, H / 2)
    s.rect(-B / 2, -B / 2 + r, -H / 2 + r, H / 2 - r).rect(B / 2 - r, B / 2, -H / 2 + r, H / 2 - r)
    for i in (-1, 1):
        for j in (-1, 1):
            s.quad(i * (B / 2 - r), j * (H / 2 - r), r, i, j)
    return s


COL = st.fixed_dictionaries({
    'H': st.integers(10, 40), 'B': st.integers(10, 40), 'sq': st.booleans(), 'T': st.sampled_from([4.0, 5.0, 6.0, 6.3, 7.1, 8.0, 8.8, 10.0, 12.5]),
    'fy': st.sampled_from([235, 355, 420]), 'c': GRADE, 'd': st.sampled_from([8, 12, 16, 20, 25, 32]),
    'u': st.floats(10, 80), 'v': st.floats(10, 80), 'pos': st.booleans(), 'L': st.floats(1500, 12000), 'lcr': st.tuples(
        st.sampled_from([1.0, 0.7, 2.0]), st.sampled_from([1.0, 0.5])).map(list),
    'ned': st.floats(1e4, 5e6), 'g': st.floats(0, 1), 'sign': st.sampled_from([1, 1, -1]),
    'med': st.tuples(st.floats(-200, 200), st.floats(-200, 200)).map(list)})


class Column:
    def __init__(self, k):
        from metku.eurocodes.en1992.en1992_1_1 import Rebar
        from metku.sections.composite.composite_column import ConcreteFilledTube
        from metku.sections.steel.RHS import RHS, SHS
        self.H = H = 10.0 * k['H']
        self.B = B = H if k['sq'] else 10.0 * k['B']
        T = self.T = k['T']
        S = SHS(H, T, fy=k['fy']) if k['sq'] else RHS(H, B, T, fy=k['fy'])
        r = self.r = S.R - T
        d = k['d']
        self.z, self.y = H / 2 - T - k['u'] - d / 2, B / 2 - T - k['v'] - d / 2
        if min(self.z, self.y) < d / 2 or H > 5 * B or B > 5 * H:
            raise Skip('no room for the bars')
        self.c = concrete(k['c'])
        bar = Rebar(d, 'B500B')
        if k['pos']:
            x = ConcreteFilledTube(k['L'], S, self.c, bar, rebar_pos=[self.y, self.z])
        else:
            x = ConcreteFilledTube(k['L'], S, self.c, bar)
            check_close([x.u, x.v][0], 30, 'default position')
            check_close(x.v, 30, 'default position')
            x.u, x.v = k['u'], k['v']
        x.lcr = list(k['lcr'])
        x.ned, x.nged = k['ned'] * k['sign'], k['ned'] * k['g'] * k['sign']
        x.med = [m * 1e6 for m in k['med']]
        self.x, self.S, self.bar = x, S, bar
        self.As = math.pi * d * d
        self.core = rounded(B - 2 * T, H - 2 * T, r)
        self.f = (k['fy'], FCK[k['c']] / 1.5, 500 / 1.15)
        self.Ac = self.core.A - self.As


@CHECK.clause('tube', COL, quick=900, thorough=20000, rule='bars away from the axis')
def tube(k):
    m = Column(k)
    x, S = m.x, m.S
    check_close(x.u, k['u'], 'u', atol=1e-9)
    check_close(x.v, k['v'], 'v', atol=1e-9)
    check_close(x.z_rebar, m.z, 'z of the bars', atol=1e-9)
    check_close(x.y_rebar, m.y, 'y of the bars', atol=1e-9)
    check_close(x.Ac, m.Ac, 'area of concrete', rtol=1e-6)
    check_close(x.As, m.As, 'area of bars')
    check_close(x.Aa, S.A, 'area of steel')
    fy, fc, fs = m.f
    pl = fy * S.A + fs * m.As + fc * m.Ac
    check_close(x.NplRd(), pl, 'NplRd', rtol=1e-6)
    check_close(x.NaRd(), fy * S.A, 'NaRd')
    rk = fy * S.A + 500 * m.As + FCK[k['c']] * m.Ac
    check_close(x.NplRk(), rk, 'NplRk', rtol=1e-6)
    check_close(x.steel_contribution_ratio(), fy * S.A / pl, 'steel contribution', rtol=1e-6)
    rho = m.As / m.Ac
    check_close(x.reinforcement_ratio(), rho, 'reinforcement ratio', rtol=1e-6)
    check_close(x.weight_per_length, S.A * 7850e-9 * 1e3 * 9.81e-3 + m.Ac * 1e-6 * 24 + m.As * 7850e-9 * 1e3 * 9.81e-3, 'weight', rtol=1e-6)
    check_close(x.NEd, k['ned'], 'NEd')
    small, large = sorted(x.med, key=abs)
    check_close(abs(x.M1), abs(small), 'M1')
    check_close(abs(x.M2), abs(large), 'M2')
    ph = creep(FCK[k['c']], 50, 1e11, 1e11, 28)
    Ec = ecm(FCK[k['c']]) / (1 + k['g'] * ph)
    check_close(x.Eceff, Ec, 'effective modulus of concrete', rtol=1e-6)
    for ax in 'yz':
        if ax == 'z' and not AXIS_Z:
            continue
        sec = m.core if ax == 'y' else m.core.swapped()
        q = m.z if ax == 'y' else m.y
        Is = 4 * math.pi * (k['d'] / 2) ** 4 / 4 + m.As * q * q
        Ic = sec.integrate(lambda z: z * z) - Is
        Ia = S.I[0 if ax == 'y' else 1]
        EI = 210e3 * Ia + 210e3 * Is + 0.6 * Ec * Ic
        EI2 = 0.9 * (210e3 * Ia + 210e3 * Is + 0.5 * Ec * Ic)
        check_close(x.EIeff(ax), EI, f'EIeff {ax}', rtol=1e-5)
        check_close(x.EIeffII(ax), EI2, f'EIeffII {ax}', rtol=1e-5)
        L = k['L'] * k['lcr'][0 if ax == 'y' else 1]
        check_close(x.Ncr(ax), math.pi ** 2 * EI / L ** 2, f'Ncr {ax}', rtol=1e-5)
        check_close(x.Ncreff(ax), math.pi ** 2 * EI2 / L ** 2, f'Ncr,eff {ax}', rtol=1e-5)
        s = math.sqrt(rk * L ** 2 / (math.pi ** 2 * EI))
        check_close(x.slenderness(ax), s, f'slenderness {ax}', rtol=1e-5)
        if abs(rho - 0.03) > 1e-6:
            al = 0.21 if rho <= 0.03 else 0.34
            phi = 0.5 * (1 + al * (s - 0.2) + s * s)
            check_close(x.NbRd(ax), min(1, 1 / (phi + math.sqrt(phi * phi - s * s))) * pl, f'NbRd {ax}', rtol=1e-5)
    if abs(rho - 0.03) > 1e-6:
        check_close(x.e0(), k['L'] / (300 if rho <= 0.03 else 200), 'e0')
    check_close(x.alpha_m(), 0.9 if fy <= 355 else 0.8, 'alpha_M')
    check_close(x.VRd(), S.shear_force_resistance(), 'VRd')
    return m.z > k['d'] and m.y > k['d']


@CHECK.clause('tube_moment', COL, quick=900, thorough=20000, rule='the bars of the tension side yield')
def tube_moment(k):
    """stress blocks: the moment about the axis at which their resultant vanishes"""
    m = Column(k)
    x, S = m.x, m.S
    fy, fc, fs = m.f
    need(abs(x.NpmRd() - fc * m.Ac) < 1e-6 * fc * m.Ac, 'NpmRd')
    H, B, T = m.H, m.B, m.T
    A1 = m.As / 4
    tube_ = rounded(B, H, m.r + T)

    def area(sec, a):           # above z = a
        return sec.integrate(lambda z: 1.0 * (z > a), a)

    def mom(sec, a):
        return sec.integrate(lambda z: z * (z > a), a)

    def N(a):
        n = fc * area(m.core, a)
        for z in (m.z, -m.z):
            n += 2 * A1 * ((fs - fc) if z > a else -fs)
        at = area(tube_, a) - area(m.core, a)
        return n + fy * (2 * at - (area(tube_, -H) - area(m.core, -H)))
    lo, hi = -H / 2, H / 2
    for _ in range(60):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if N(mid) > 0 else (lo, mid)
    a = (lo + hi) / 2
    if abs(abs(a) - m.z) < k['d'] / 2 + 0.5:
        raise Skip('axis through bars')
    if abs(a) > H / 2 - T - m.r:
        raise Skip('axis in the corners')
    M = fc * mom(m.core, a) + 2 * fy * (mom(tube_, a) - mom(m.core, a))
    for z in (m.z, -m.z):
        M += 2 * A1 * z * ((fs - fc) if z > a else -fs)
    check_close(x.MplRd(), M, 'MplRd', rtol=1e-3)
    # the moment is largest when the axis is at the centroid
    W = fc * mom(m.core, 0) + 2 * fy * (mom(tube_, 0) - mom(m.core, 0)) + 2 * A1 * m.z * (2 * fs - fc)
    check_close(x.Mpl_max_Rd(), W, 'Mmax,Rd', rtol=1e-3)
    # plastic modulus of the concrete: rectangle, less what is missing in the corners (square less quarter of a circle), less bars
    b, h, r = B - 2 * T, H - 2 * T, m.r
    Wc = b * h * h / 4 - 4 * (r * r * (1 - math.pi / 4) * (h / 2 - r) + r ** 3 / 6) - 4 * A1 * m.z
    check_close(x.Wpc, Wc, 'plastic modulus of the concrete', rtol=1e-9)
    need(x.MplRd() <= x.Mpl_max_Rd() * (1 + 1e-9), 'MplRd above the largest moment')
    return a < m.z


BEAM = st.fixed_dictionaries({
    'sec': st.one_of(st.tuples(st.sampled_from(['IPE', 'HEA', 'HEB']), st.sampled_from([100, 140, 200, 300, 400, 500, 600])),
                     st.tuples(st.just('I'), st.tuples(st.floats(100, 800), st.floats(60, 300), st.floats(5, 40), st.floats(4, 25)).map(list))).map(list),
    'fy': st.sampled_from([235, 355, 420]), 'c': GRADE, 'L': st.floats(1500, 16000), 'b0': st.sampled_from([0, 0, 50, 100]),
    'h': st.floats(40, 250), 'deck': st.sampled_from([0, 0, 40, 58, 100]), 'RH': st.sampled_from([50, 80, 40.5]), 't0': st.sampled_from([28, 7, 90])})


@CHECK.clause('beam', BEAM, quick=1200, thorough=30000, rule='neutral axis in the steel section')
def beam(k):
    import importlib
    from metku.sections.composite.composite_beam import CompositeIBeam, CompositeSlab, ConcreteSlab
    I = importlib.import_module('metku.sections.steel.ISection')
    if k['sec'][0] == 'I':
        h, b, tf, tw = k['sec'][1]
        if h < 2 * tf + 40 or b < 3 * tw:
            raise Skip('shape')
        S = I.ISection(h, b, tf, tw, 1e-3, fy=k['fy'])
    else:
        S = getattr(I, k['sec'][0])(k['sec'][1], fy=k['fy'])
        h, b, tf, tw = S.h, S.b, S.tf, S.tw
    f = FCK[k['c']]
    con = concrete(k['c'])
    slab = CompositeSlab(k['h'] + k['deck'], con, k['deck']) if k['deck'] else ConcreteSlab(k['h'], con)
    hc, hl = k['h'], k['h'] + k['deck']
    x = CompositeIBeam(k['L'], S, slab, RH=k['RH'])
    x.b0, x.t0 = k['b0'], k['t0']
    check_close(slab.h, hl, 'height of the slab')
    check_close(slab.h0, 2 * hc, 'h0')
    if k['deck']:
        check_close(slab.concrete_weight(), 25 * hl * 1e-3, 'weight of the slab')
    else:
        check_close(slab.weight(), 25 * hl * 1e-3, 'weight of the slab')
    be = k['b0'] + k['L'] / 4
    check_close(x.beff, be, 'effective width')
    # elastic: transformed section
    A, Iy = S.A, S.I[0]
    yc, ya = hc / 2, hl + h / 2
    Ea = S.E
    E0 = ecm(f)
    Ec = E0 / (1 + 1.1 * creep(f, k['RH'], 2 * hc, 1e8, k['t0']))
    Es = E0 / (1 + 0.55 * creep(f, k['RH'], 2 * hc, 1e8, 1))
    for lt, E in ((None, E0), ('creep', Ec)):
        EA = Ea * A + E * be * hc
        y = (Ea * A * ya + E * be * hc * yc) / EA
        EI = Ea * (Iy + A * (ya - y) ** 2) + E * (be * hc ** 3 / 12 + be * hc * (y - yc) ** 2)
        check_close(x.EAcom(lt), EA, f'EA {lt}')
        check_close(x.centroid(lt), y, f'centroid {lt}')
        check_close(x.ya_com(lt), abs(ya - y), f'arm of the steel part {lt}', atol=1e-9)
        check_close(x.yc_com(lt), abs(yc - y), f'arm of the concrete part {lt}', atol=1e-9)
        check_close(x.EIcom(lt), EI, f'EI {lt}')
        if lt is None:
            e0 = Ea * Iy + E * be * hc ** 3 / 12
            check_close(x.composite_coefficient(), EI / e0 - 1, 'composite coefficient')
    check_close(x.n0, Ea / E0, 'n0')
    check_close(x.nC, Ea / Ec, 'nC')
    check_close(x.nS, Ea / Es, 'nS')
    # plastic: stress blocks; fillets far from the axis stay in tension
    fy = k['fy']
    Rc = 0.85 * f / 1.5 * be * hc
    check_close(x.Ra(), fy * A, 'Ra')
    check_close(x.Rc(), Rc, 'Rc')
    check_close(x.Rf(), fy * b * tf, 'Rf')
    ex = (fy * A - Rc) / 2          # steel in compression
    if ex <= 0:
        na = hc * fy * A / Rc
        M = fy * A * (ya - na / 2)
    else:
        if ex <= fy * b * tf:
            q = ex / fy / b
            cm = ex * (hl + q / 2)
        else:
            q = tf + (ex / fy - b * tf) / tw
            cm = fy * b * tf * (hl + tf / 2) + (ex - fy * b * tf) * (hl + (tf + q) / 2)
            if q > h - tf:
                raise Skip('axis in the bottom flange')
        na = hl + q
        M = fy * A * ya - 2 * cm - Rc * hc / 2
    check_close(x.plastic_neutral_axis(), na, 'plastic neutral axis', rtol=1e-6)
    check_close(x.MplRd(), M, 'MplRd', rtol=1e-6)
    # without fillets: the plastic moment of the steel section is the least
    if k['sec'][0] == 'I':
        need(x.MplRd() >= S.Wpl[0] * fy * (1 - 1e-4), 'MplRd below that of the steel section')
    check_close(x.VRd(), S.shear_force_resistance(), 'VRd')
    return ex > 0


AXIS_Z = True
