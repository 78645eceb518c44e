"""S04: plated structures, EN 1993-1-5: effective sections, shear buckling,
patch loading."""
import math

from hypothesis import strategies as st

from lib import gensec, refsec
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('S04', 'a plate element is reduced or a web is slender',
              ['top flange in compression', 'patch loading at a member end: '
               'cases in which Eq. (6.10) does not govern'])
E = 210e3
R2 = math.sqrt(2)


def k_int(psi):
    if psi == 1:
        return 4.0
    if psi >= 0:
        return 7.81 if psi == 0 else 8.2 / (1.05 + psi)
    if psi > -1:
        return 7.81 - 6.29 * psi + 9.78 * psi ** 2
    if psi == -1:
        return 23.9
    return 5.98 * (1 - psi) ** 2


def k_out(psi, where):
    if where == 'tip':
        return 0.57 - 0.21 * psi + 0.07 * psi ** 2
    if psi == 1:
        return 0.43
    if psi > 0:
        return 0.578 / (psi + 0.34)
    if psi == -1:
        return 23.8
    return 1.7 - 5 * psi + 17.1 * psi ** 2


def rho_int(lp, psi):
    if lp <= 0.5 + math.sqrt(0.085 - 0.055 * psi):
        return 1.0
    return min(1.0, (lp - 0.055 * (3 + psi)) / lp ** 2)


def rho_out(lp):
    return 1.0 if lp <= 0.748 else min(1.0, (lp - 0.188) / lp ** 2)


def rho_flange(d, fy, b, t):
    c = (b - d['tw']) / 2 - R2 * d['a']
    lp = c / t / (28.4 * math.sqrt(235 / fy) * math.sqrt(0.43))
    return rho_out(lp), c


def web(d, fy, psi):
    """(rho, be1, be2, bc) of the web."""
    cw = d['h'] - d['tt'] - d['tb'] - 2 * R2 * d['a']
    lp = cw / d['tw'] / (28.4 * math.sqrt(235 / fy) * math.sqrt(k_int(psi)))
    rho = rho_int(lp, psi)
    if psi >= 0:
        beff, bc = rho * cw, cw
        be1 = 2 / (5 - psi) * beff
        return rho, be1, beff - be1, bc
    bc = cw / (1 - psi)
    return rho, 0.4 * rho * bc, 0.6 * rho * bc, bc


def effective(d, fy, bend=True):
    """Converged effective section in bending (or of uniform compression)."""
    def build(psi):
        s = refsec.wi(d['h'], d['tw'], d['bt'], d['tt'], d['bb'], d['tb'])
        rt, ct = rho_flange(d, fy, d['bt'], d['tt'])
        loss = 2 * (1 - rt) * ct
        s.rect(0, loss, d['h'] - d['tt'], d['h'], -1)
        if not bend:
            rb, cb = rho_flange(d, fy, d['bb'], d['tb'])
            s.rect(0, 2 * (1 - rb) * cb, 0, d['tb'], -1)
        rho, be1, be2, bc = web(d, fy, psi)
        z1 = d['h'] - d['tt'] - R2 * d['a'] - be1
        s.rect(0, d['tw'], z1 - (1 - rho) * bc, z1, -1)
        return s
    if not bend:
        return build(1.0), 1.0
    psi = -1.0
    for _ in range(60):
        s = build(psi)
        z = s.zc()
        if z > d['h'] - d['tt'] - 1:
            raise Skip            # web not in compression
        new = (d['tb'] - z) / (d['h'] - d['tt'] - z)
        if abs(new - psi) < 1e-12:
            break
        psi = new
    return s, psi


def slender():
    def mk(t):
        d, rw, rf = t
        d = dict(d)
        hw = d['h'] - d['tt'] - d['tb']
        d['tw'] = round(max(hw / rw, 2.0), 2)
        if rf:
            for b, t_ in (('bt', 'tt'), ('bb', 'tb')):
                d[t_] = round(max(d[b] / 2 / rf, 3.0), 2)
        return d
    return st.tuples(gensec.widims(), st.floats(20, 260), st.one_of(
        st.none(), st.floats(6, 40))).map(mk)


OPS = st.lists(st.sampled_from(['A', 'W', 'I', 'M', 'V', 'H', 'T']), min_size=0,
               max_size=4)


@CHECK.clause('effective', st.fixed_dictionaries({
    'd': slender(), 'fy': gensec.grade(), 'ops': OPS}), quick=1000,
    thorough=60000, rule='effective area, second moment and modulus of a '
    'welded section (after other queries) vs. assembled effective section')
def effective_section(case):
    d, fy = dict(case['d']), case['fy']
    cw = d['h'] - d['tt'] - d['tb'] - 2 * R2 * d['a']
    if cw < 20 or min(d['bt'], d['bb']) < d['tw'] + 2 * R2 * d['a'] + 5:
        raise Skip
    sec = gensec.make({'kind': 'WI', 'd': d, 'fy': fy})
    effective(d, fy)
    for op in case['ops']:
        if op == 'A':
            sec.Aeff
        elif op == 'W':
            sec.W_eff_y
        elif op == 'I':
            sec.effective_area(-1)
        elif op == 'M':
            sec.Med, sec.Ned = [1e8, 0.0], -1e5
            sec.section_class()
        elif op == 'V':
            sec.shear_buckling_resistance()
        elif op == 'H':
            d['h'] = round(d['h'] * 1.05, 3)
            sec.h = d['h']
        elif op == 'T':
            d['tt'] = round(d['tt'] * 0.9, 3)
            sec.tt = d['tt']
        if op in 'HT':
            effective(d, fy)
    comp, _ = effective(d, fy, bend=False)
    bend, psi = effective(d, fy)
    check_close(sec.Aeff, comp.A, 'Aeff', 1e-6)
    z = bend.zc()
    check_close(sec.I_eff_y, bend.Iy(), 'Ieff', 3e-3)
    W = bend.Iy() / max(z, d['h'] - z)
    check_close(sec.W_eff_y, W, 'Weff', 3e-3)
    check_close(sec.bending_resistance(C=4)[0], W * fy, 'MRd, class 4', 3e-3)
    check_close(sec.Aeff, comp.A, 'Aeff', 1e-6)
    gross = refsec.wi(d['h'], d['tw'], d['bt'], d['tt'], d['bb'], d['tb'])
    need(sec.I_eff_y <= gross.Iy() * (1 + 1e-6), 'effective above gross')
    return comp.A < gross.A * 0.999 and bend.Iy() < gross.Iy() * 0.999


@CHECK.clause('plates', st.fixed_dictionaries({
    'psi': st.one_of(st.sampled_from([1.0, 0.0, -1.0]), st.floats(-2.9, 1)),
    'opsi': st.one_of(st.sampled_from([1.0, 0.0, -1.0]), st.floats(-1, 1)),
    'r': st.floats(5, 300), 't': st.floats(2, 40), 'fy': st.floats(200, 960)}),
    quick=3000, thorough=200000, rule='plate element of given slenderness and '
    'stress ratio vs. Tables 4.1 and 4.2')
def plates(case):
    from metku.eurocodes.en1993 import en1993_1_5 as en
    psi, op = case['psi'], case['opsi']
    t, b, fy = case['t'], case['r'] * case['t'], case['fy']
    e = math.sqrt(235 / fy)
    k = k_int(psi)
    check_close(en.buckling_factor_internal(psi), k, 'k_sigma', 1e-9)
    lp = b / t / (28.4 * e * math.sqrt(k))
    check_close(en.lambda_p(b, t, e, k), lp, 'lambda_p', 1e-9)
    rho = rho_int(lp, psi)
    check_close(en.reduction_factor_internal(lp, psi), rho, 'rho', 1e-9)
    beff, be = en.effective_width_internal(b, psi, rho)
    if psi >= 0:
        want = [2 / (5 - psi) * rho * b, rho * b * (3 - psi) / (5 - psi)]
    else:
        want = [0.4 * rho * b / (1 - psi), 0.6 * rho * b / (1 - psi)]
    check_vec(be, want, 'be', 1e-6)
    check_close(beff, sum(want), 'beff', 1e-6)
    for where in ('tip', 'support'):
        if 0 < abs(op) < 1e-3:
            raise Skip
        check_close(en.buckling_factor_outstand(op, where), k_out(op, where),
                    f'k_sigma outstand {where}', 1e-9)
    ro = rho_out(lp)
    check_close(en.reduction_factor_outstand(lp), ro, 'rho outstand', 1e-9)
    check_close(en.effective_width_outstand(b, op, ro),
                ro * b / (1 - min(op, 0)), 'beff outstand', 1e-9)
    return rho < 1


def shear_ref(d, fy, a, post, N, M):
    e = math.sqrt(235 / fy)
    eta = 1.2 if fy <= 460 else 1.0
    hw = d['h'] - d['tt'] - d['tb']
    cap = eta * fy * hw * d['tw'] / math.sqrt(3)
    if hw / d['tw'] < 72 * e / eta:
        return cap, 0
    al = a / hw
    kt = 5.34 + 4 / al ** 2 if al >= 1 else 4 + 5.34 / al ** 2
    tau = kt * 190e3 * (d['tw'] / hw) ** 2
    lw = 0.76 * math.sqrt(fy / tau)
    if lw < 0.83 / eta:
        chi = eta
    elif lw < 1.08 or post == 'non-rigid':
        chi = 0.83 / lw
    else:
        chi = 1.37 / (0.7 + lw)
    V = chi * fy * hw * d['tw'] / math.sqrt(3)
    A1, A2 = d['bt'] * d['tt'], d['bb'] * d['tb']
    Mf = min(A1, A2) * fy * (d['h'] - 0.5 * (d['tt'] + d['tb']))
    Mf *= max(0.0, 1 - abs(N) / ((A1 + A2) * fy))
    if abs(M) < Mf:
        bf, tf = (d['bt'], d['tt']) if A1 <= A2 else (d['bb'], d['tb'])
        bf = min(bf, 30 * e * tf + d['tw'])
        c = a * (0.25 + 1.6 * bf * tf ** 2 / (d['tw'] * hw ** 2))
        V += bf * tf ** 2 * fy / c * (1 - (M / Mf) ** 2)
    return min(V, cap), 1


@CHECK.clause('shear', st.fixed_dictionaries({
    'd': slender(), 'fy': gensec.grade(), 'a': st.one_of(
        st.just(None), st.floats(0.3, 4)),
    'post': st.sampled_from(['rigid', 'non-rigid']),
    'n': st.one_of(st.just(0.0), st.floats(-1.2, 1.2)),
    'm': st.one_of(st.just(0.0), st.floats(-1.3, 1.3))}),
    quick=2000, thorough=100000, rule='shear buckling resistance of a slender '
    'web under N and M vs. clause 5')
def shear(case):
    d, fy = case['d'], case['fy']
    if min(d['bt'], d['bb']) < d['tw'] + 10:
        raise Skip
    sec = gensec.make({'kind': 'WI', 'd': d, 'fy': fy})
    hw = d['h'] - d['tt'] - d['tb']
    if hw < 20:
        raise Skip
    Af = (d['bt'] * d['tt'] + d['bb'] * d['tb']) * fy
    sec.Ned = case['n'] * Af
    Mf = min(d['bt'] * d['tt'], d['bb'] * d['tb']) * d['h'] * fy
    sec.Med = [case['m'] * Mf, 0.0]
    a = hw * case['a'] if case['a'] else 10e5
    kw = {'end_post': case['post']}
    if case['a']:
        kw['stiffener_spacing'] = a
    V, slim = shear_ref(d, fy, a, case['post'], sec.Ned, sec.Med[0])
    check_close(sec.shear_buckling_resistance(**kw), V, 'VbRd', 1e-6)
    return slim == 1


@CHECK.clause('patch', st.fixed_dictionaries({
    'd': slender(), 'fy': gensec.grade(), 'ss': st.floats(0, 400),
    'a': st.one_of(st.just(0), st.floats(0.5, 5)),
    'type': st.sampled_from('abc'), 'c': st.floats(0, 300)}),
    quick=2000, thorough=100000, rule='resistance to transverse forces vs. '
    'clause 6')
def patch(case):
    d, fy = case['d'], case['fy']
    hw = d['h'] - d['tt'] - d['tb']
    if hw < 20 or min(d['bt'], d['bb']) < d['tw'] + 10:
        raise Skip
    sec = gensec.make({'kind': 'WI', 'd': d, 'fy': fy})
    a = case['a'] * hw
    ss, c, ty = min(case['ss'], hw), case['c'], case['type']
    got = sec.transverse_load_resistance(case['ss'], ty, a, c)
    inv = (hw / a) ** 2 if a else 0.0
    kF = {'a': 6 + 2 * inv, 'b': 3.5 + 2 * inv,
          'c': min(6.0, 2 + 6 * (ss + c) / hw)}[ty]
    Fcr = 0.9 * kF * E * d['tw'] ** 3 / hw
    m1 = d['bt'] / d['tw']
    tf = d['tt']
    alim = a if a else 1e9

    def length(m2):
        full = min(ss + 2 * tf * (1 + math.sqrt(m1 + m2)), alim)
        if ty != 'c':
            return full
        le = min(kF * E * d['tw'] ** 2 / (2 * fy * hw), ss + c)
        r = min(le + tf * math.sqrt(m1 / 2 + (le / tf) ** 2 + m2),
                le + tf * math.sqrt(m1 + m2))
        if full < r:
            raise Skip
        return r
    ly = length(0.0)
    lam = math.sqrt(ly * d['tw'] * fy / Fcr)
    if abs(lam - 0.5) < 1e-4:
        raise Skip
    if lam > 0.5:
        ly = length(0.02 * (hw / tf) ** 2)
        lam = math.sqrt(ly * d['tw'] * fy / Fcr)
    chi = min(1.0, 0.5 / lam)
    check_close(got, fy * chi * ly * d['tw'], f'FRd type {ty}', 1e-5)
    return lam > 0.5 and ty
